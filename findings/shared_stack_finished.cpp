#include "guard.h"
#include <fstream>
#include <string>
// A finished shared-stack coroutine that was given up is deleted before the environment
// looks at it to save its stack.
static long mapped()
{
    std::ifstream f("/proc/self/statm");
    long n = 0;
    f >> n;
    return n;
}
int main(int argc, char **argv)
{
    guard();
    static std::atomic<int> done{0};
    static co_env *env = co::create_env(true);
    for (int k = 0; k < 20; ++k) {
        co a({with_bind_env(env), with_shared_stack(true)}, [] { ++done; });
        a.detach();
        this_co::sleep_for(1ms);
    }
    expect("no deleted coroutine object is used", within(1000, [] { return done == 20; }));
    _exit(bad);
}
