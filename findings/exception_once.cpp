#include "pre.h"
// Two waiters on different threads ask for the exception at the same moment.
int main()
{
    co::set_base_schedule_thread_count(4);
    std::atomic<int> twice{0}, none{0};
    for (int k = 0; k < 3000 && !twice; ++k) {
        std::atomic<int> ready{0}, got{0};
        co t([&] { while (ready < 2) this_co::yield(); throw std::runtime_error("x"); });
        auto f = [&] { ++ready; try { t.wait<void>(); } catch (...) { ++got; } };
        std::thread a(f), b(f);
        a.join();
        b.join();
        if (got > 1) ++twice;
        if (got < 1) ++none;
    }
    expect("only one waiter gets the exception", twice == 0);
    expect("a waiter gets the exception", none == 0);
    _exit(bad);
}
