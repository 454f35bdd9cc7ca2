// Coroutine objects live on pages of their own that become inaccessible when they are deleted.
#include "pre.h"
#include "cocpp/core/co_ctx.h"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
static const size_t guard_size = (sizeof(co_ctx) + 4095) / 4096 * 4096;
void *operator new(size_t n)
{
    if (n == sizeof(co_ctx))
        return mmap(nullptr, guard_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void *p, size_t n) noexcept
{
    if (n == sizeof(co_ctx))
        mprotect(p, guard_size, PROT_NONE);
    else
        free(p);
}
void operator delete(void *p) noexcept { free(p); }
static void on_segv(int) { printf("0 no deleted coroutine object is used\n"); fflush(stdout); _exit(1); }
#include <signal.h>
static void guard()
{
    co::current_env();
    signal(SIGSEGV, on_segv);
}
