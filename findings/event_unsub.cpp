// A subscriber that unsubscribes itself (or the next one) while the event is published.
#include "cocpp/event/co_event.h"
#include <cstdio>

using namespace cocpp;

// every block is filled when it is freed, so that a walk over freed nodes shows
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
void *operator new(size_t n)
{
    return malloc(n);
}
void operator delete(void *p) noexcept
{
    if (p)
        memset(p, 0, malloc_usable_size(p));
    free(p);
}
void operator delete(void *p, size_t) noexcept
{
    operator delete(p);
}

int main()
{
    int bad = 0;
    {
        co_event<> e;
        int calls[4] = {};
        co_event_handle h[4];
        for (int i = 0; i < 4; ++i)
            h[i] = e.sub([&, i] {
                ++calls[i];
                if (i == 1)
                {
                    e.unsub(h[1]);
                    e.unsub(h[2]);
                }
            });
        e.pub();
        if (calls[0] != 1 || calls[1] != 1 || calls[2] != 0 || calls[3] != 1)
        {
            printf("calls: %d %d %d %d, expected 1 1 0 1\n", calls[0], calls[1], calls[2], calls[3]);
            bad = 1;
        }
    }
    {
        co_event<> e;
        int n = 0;
        auto h = e.sub([&] { ++n; });
        e.unsub(h + (1ull << 32));
        e.pub();
        if (n != 1)
        {
            puts("unsubscribing another handle removed the subscription");
            bad = 1;
        }
    }
    return bad;
}
