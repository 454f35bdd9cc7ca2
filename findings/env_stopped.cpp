// An environment is stopped after it was chosen for a new coroutine and before it received it:
// creating the coroutine fails, or the coroutine never runs.
#include "cocpp/cocpp.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <stdexcept>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace cocpp;

int main(int argc, char **argv)
{
    co_manager::instance()->set_base_schedule_thread_count(16);
    co_manager::instance()->set_max_schedule_thread_count(1);
    std::atomic<int> failed {0}, made {0}, ran {0};
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    std::vector<std::thread> ts;
    for (int t = 0; t < 24; ++t)
        ts.emplace_back([&] {
            while (!failed && std::chrono::steady_clock::now() < end)
            {
                try
                {
                    co c({with_shared_stack(true)}, [&] { ++ran; });
                    ++made;
                    c.detach();
                }
                catch (const std::runtime_error &e)
                {
                    puts(e.what());
                    ++failed;
                }
                std::this_thread::sleep_for(std::chrono::microseconds(900));
            }
        });
    for (auto &t : ts)
        t.join();
    for (int i = 0; i < 200 && made != ran; ++i)
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
    printf("%d failed, %d of %d never ran\n", failed.load(), made - ran, made.load());
    fflush(stdout);
    _exit(failed != 0 || made != ran);
}
