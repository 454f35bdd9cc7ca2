#include "pre.h"
int main()
{
    {
        static co_once_flag f; static std::atomic<int> done{0}, early{0};
        co a([] { co_call_once(f, [] { this_co::sleep_for(200ms); done = 1; }); });
        this_co::sleep_for(50ms);
        co b([] { co_call_once(f, [] {}); if (!done) early = 1; });
        a.join(); b.join();
        expect("a second caller returns after the function has completed", !early);
    }
    {
        static co_once_flag f; static int n = 0;
        co a([] { try { co_call_once(f, [] { throw std::runtime_error("x"); }); } catch (std::runtime_error &) { n += 1; } co_call_once(f, [] { n += 10; }); });
        a.join();
        expect("a function that throws leaves the flag unset", n == 11);
    }
    _exit(bad);
}
