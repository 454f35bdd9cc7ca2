// The settings of the pool are written without the lock under which they are read, and the tick
// of the background thread is handed out as a reference that is read after its lock is released.
// Build with -fsanitize=thread together with the sources of the library.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_manager.h"
#include <chrono>
#include <thread>
#include <unistd.h>
using namespace cocpp;
int main()
{
    auto m = co_manager::instance();
    std::thread a([&] {
        for (int i = 0; i < 200; ++i)
        {
            m->set_base_schedule_thread_count(2 + i % 3);
            m->set_max_schedule_thread_count(8 + i % 3);
            m->set_env_shared_stack_size(65536 + 4096 * (i % 3));
            m->set_timer_tick_duration(std::chrono::milliseconds(10 + i % 3));
            usleep(1000);
        }
    });
    usleep(1000);
    for (int i = 0; i < 20; ++i)
    {
        co c({with_stack_size(1 << 20)}, [] {});
        c.detach();
        usleep(5000);
    }
    a.join();
    _exit(0);
}
