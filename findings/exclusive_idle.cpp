// An exclusive environment that is idle receives coroutines that are not bound to it.
#include "cocpp/cocpp.h"
#include <chrono>
#include <cstdio>
#include <thread>
#include <unistd.h>

using namespace cocpp;

int main()
{
    auto env = co_manager::instance()->create_env(true);
    env->set_exclusive();
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    bool bad = false;
    for (int i = 0; i < 20; ++i)
    {
        co c([&] {
            bad = bad || co_manager::instance()->current_env() == env;
        });
        c.join();
    }
    puts(bad ? "an unbound coroutine ran in the exclusive environment" : "ok");
    fflush(stdout);
    _exit(bad);
}
