#include "pre.h"
int main()
{
    {
        static co_barrier b(2); static std::atomic<int> r{0};
        co a([] { b.arrive_and_wait(); r = 1; }); a.detach();
        this_co::sleep_for(50ms);
        b.arrive();
        expect("the last arrival without waiting completes the phase", within(500, [] { return r == 1; }));
    }
    {
        static co_barrier b(2); static std::atomic<int> r{0};
        co a([] { b.arrive_and_wait(); r = 1; try { b.arrive_and_wait(); r = 2; } catch (...) { r = -1; } }); a.detach();
        this_co::sleep_for(50ms);
        b.arrive_and_drop();
        expect("the last arrival that drops out completes the phase and lowers the next one", within(500, [] { return r == 2; }));
    }
    {
        static co_barrier b(2); static std::atomic<int> r{0};
        auto t = b.arrive();
        co a([] { try { b.arrive_and_wait(); } catch (...) { r = -1; } }); a.detach();
        this_co::sleep_for(50ms);
        try { b.wait(std::move(t)); r = r + 1; } catch (...) { r = -1; }
        expect("a token of a phase that is complete does not throw", within(300, [] { return r == 1; }));
    }
    _exit(bad);
}
