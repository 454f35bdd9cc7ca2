// Threads that start and stop timers must not deadlock.
#include "cocpp/cocpp.h"
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace cocpp;
using namespace std::chrono_literals;
int main()
{
    co_manager::instance();
    static std::atomic<long> n{0};
    std::vector<std::thread> v;
    for (int i = 0; i < 4; ++i)
        v.emplace_back([] { for (int k = 0; k < 20000; ++k) { auto t = co_timer::create([] {}, co_expire_type::once, 50); t->start(); t->stop(); ++n; } });
    long last = -1;
    int same = 0;
    while (n < 80000 && same < 30) { long x = n; same = x == last ? same + 1 : 0; last = x; usleep(100000); }
    printf("%ld of 80000\n", n.load());
    fflush(stdout);
    _exit(n == 80000 ? 0 : 1);
}
