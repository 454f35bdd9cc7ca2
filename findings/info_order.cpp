// The textual description of the manager holds the lock of the timer queue while it asks each
// timer for its own; a timer that is started or stopped takes the two locks the other way round.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_timer.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace cocpp;
using namespace std::chrono_literals;
int main()
{
    std::atomic<long> infos { 0 }, starts { 0 };
    std::vector<std::shared_ptr<co_timer>> timers;
    for (int i = 0; i < 50; ++i)
        timers.push_back(co_timer::create([] {}, co_expire_type::once, 100000));
    for (auto &t : timers)
        t->start();
    for (int k = 0; k < 3; ++k)
        std::thread([&, k] {
            for (;;)
                for (size_t i = k; i < timers.size(); i += 3)
                {
                    timers[i]->stop();
                    timers[i]->start();
                    ++starts;
                }
        }).detach();
    std::thread([&] {
        for (;;)
        {
            co_manager::instance()->manager_info();
            ++infos;
        }
    }).detach();
    long last_i = -1, last_s = -1;
    for (int s = 0; s < 16; ++s)
    {
        std::this_thread::sleep_for(500ms);
        if (infos == last_i && starts == last_s)
        {
            printf("deadlock after %ld descriptions and %ld starts\n", infos.load(), starts.load());
            fflush(stdout);
            _exit(1);
        }
        last_i = infos;
        last_s = starts;
    }
    printf("ok: %ld descriptions, %ld starts\n", infos.load(), starts.load());
    fflush(stdout);
    _exit(0);
}
