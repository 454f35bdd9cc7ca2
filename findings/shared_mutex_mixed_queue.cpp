// Waiters reader, writer, reader behind a writer: the release must admit the two readers only.
#include "cocpp/cocpp.h"
#include <atomic>
#include <cstdio>
#include <unistd.h>
using namespace cocpp;
using namespace std::chrono_literals;
int main()
{
    static co_shared_mutex mu;
    static std::atomic<int> readers{0}, writers{0}, bad{0}, done{0};
    auto reader = [] { mu.lock_shared(); readers++; if (writers) bad = 1; this_co::sleep_for(100ms); if (writers) bad = 1; readers--; mu.unlock_shared(); done++; };
    auto writer = [] { mu.lock(); writers++; if (readers || writers > 1) bad = 1; this_co::sleep_for(100ms); if (readers || writers > 1) bad = 1; writers--; mu.unlock(); done++; };
    mu.lock();
    co a(reader); this_co::sleep_for(50ms);
    co b(writer); this_co::sleep_for(50ms);
    co c(reader); this_co::sleep_for(50ms);
    a.detach(); b.detach(); c.detach();
    mu.unlock();
    for (int i = 0; i < 30 && done < 3; i++) this_co::sleep_for(100ms);
    printf("done %d of 3, overlap %d\n", done.load(), bad.load());
    fflush(stdout);
    _exit(done == 3 && !bad ? 0 : 1);
}
