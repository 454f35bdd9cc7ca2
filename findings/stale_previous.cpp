#include "guard.h"
// A new coroutine remembers the one that switched to it; that one is deleted before the
// new one looks at it at the end of a yield that did not switch.
int main()
{
    guard();
    co::set_base_schedule_thread_count(1);
    co::set_max_schedule_thread_count(1);
    static std::atomic<int> done{0};
    static co_env *env = co::create_env(true);
    for (int k = 0; k < 50; ++k) {
        co a({with_bind_env(env)}, [] { auto end = std::chrono::steady_clock::now() + 2ms; while (std::chrono::steady_clock::now() < end) {} });
        co b({with_bind_env(env)}, [] { for (int i = 0; i < 5; ++i) this_co::yield(); ++done; });
        a.detach();
        b.detach();
        std::this_thread::sleep_for(6ms);
    }
    expect("no deleted coroutine object is used", within(1000, [] { return done == 50; }));
    _exit(bad);
}
