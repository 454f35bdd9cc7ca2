#include "guard.h"
// The timer of a timed wait is dispatched, then the coroutine finishes and ends the wait;
// the dispatched callback runs when waiter and coroutine may be gone.
int main()
{
    guard();
    co::set_base_schedule_thread_count(1);
    co::set_max_schedule_thread_count(1);
    co w([] {
        co t([] {
            auto end = std::chrono::steady_clock::now() + 40ms;
            while (std::chrono::steady_clock::now() < end) {}
            return 1;
        });
        auto r = t.wait_for(10ms);
        expect("the coroutine had finished when the wait returned", bool(r));
        t.detach();
        for (int i = 0; i < 20; ++i) this_co::yield();
    });
    w.wait<void>();
    for (auto ms : {1}) {
        co t([] { this_co::sleep_for(200ms); });
        auto a = std::chrono::steady_clock::now();
        auto r = t.wait_for(std::chrono::microseconds(ms * 1000 + 900));
        auto d = std::chrono::steady_clock::now() - a;
        expect("a timed wait does not give up before its time is over", !r && d >= std::chrono::microseconds(ms * 1000 + 900));
    }
    expect("no deleted coroutine object is used", true);
    _exit(bad);
}
