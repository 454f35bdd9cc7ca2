// Two timers with the same deadline must both fire.
#include "cocpp/cocpp.h"
#include <atomic>
#include <cstdio>
#include <unistd.h>
using namespace cocpp;
using namespace std::chrono_literals;
int main()
{
    static std::atomic<int> n{0};
    auto t = std::chrono::steady_clock::now() + 100ms;
    auto a = co_timer::create([] { ++n; }, t), b = co_timer::create([] { ++n; }, t);
    a->start();
    b->start();
    this_co::sleep_for(600ms);
    printf("fired %d of 2\n", n.load());
    fflush(stdout);
    _exit(n == 2 ? 0 : 1);
}
