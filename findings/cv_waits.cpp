// Condition variable waits: each line must say 1.
#include "cocpp/cocpp.h"
#include <atomic>
#include <cstdio>
#include <unistd.h>
using namespace cocpp;
using namespace std::chrono_literals;
static int bad = 0;
static void expect(const char *what, bool ok) { printf("%d %s\n", ok, what); fflush(stdout); if (!ok) bad = 1; }
int main(int argc, char **argv)
{
    // a timed wait after one that timed out
    {
        static co_mutex m; static co_condition_variable cv; static std::atomic<int> r{-1};
        co a([] { std::unique_lock<co_mutex> l(m); cv.wait_for(l, 20ms); r = cv.wait_for(l, 2000ms); });
        this_co::sleep_for(300ms);
        { std::scoped_lock l(m); cv.notify_all(); }
        a.join();
        expect("a notified timed wait after one that timed out reports no timeout", r == 1);
    }
    // predicate already true
    {
        static co_mutex m; static co_condition_variable cv; static std::atomic<int> r{0};
        co a([] { std::unique_lock<co_mutex> l(m); cv.wait(l, [] { return true; }); r = 1; });
        this_co::sleep_for(300ms);
        expect("a wait with a true predicate does not block", r == 1);
        a.detach();
    }
    {
        static co_mutex m; static co_condition_variable cv; static std::atomic<int> r{-1};
        co a([] { std::unique_lock<co_mutex> l(m); r = cv.wait_for(l, 100ms, [] { return true; }); });
        a.join();
        expect("a timed wait with a true predicate returns true", r == 1);
    }
    // mutex held by another thread at the timeout
    {
        static co_mutex m; static co_condition_variable cv; static std::atomic<int> r{0};
        auto e1 = co::create_env(true), e2 = co::create_env(true);
        co a({with_bind_env(e1)}, [] { std::unique_lock<co_mutex> l(m); cv.wait_for(l, 50ms); r = 1; });
        this_co::sleep_for(10ms);
        co b({with_bind_env(e2)}, [] { std::unique_lock<co_mutex> l(m); std::this_thread::sleep_for(300ms); });
        a.detach(); b.detach();
        for (int i = 0; i < 30 && !r; ++i) usleep(100000);
        expect("a timed wait whose mutex is busy at the timeout returns", r == 1);
    }
    _exit(bad);
}
