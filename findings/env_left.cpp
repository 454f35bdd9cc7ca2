// An environment handed to the cleaner at the end of the program has to be destroyed.  It was not
// when the cleaner's thread got to run only after the request: it left without looking at the list
// of expired environments.  The start of the first thread is held back here to show that.
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_manager.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>

using namespace cocpp;

static std::atomic<int> made {0}, gone {0};
static void *env = nullptr;

struct late
{
    void *(*fn)(void *);
    void *arg;
};

static void *held_back(void *p)
{
    late l = *(late *)p;
    usleep(300000);
    return l.fn(l.arg);
}

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    static int n = 0;
    static late l;
    if (n++ == 0 && getenv("HOLD"))
    {
        l = {fn, arg};
        return real(t, a, held_back, &l);
    }
    return real(t, a, fn, arg);
}

void *operator new(size_t n)
{
    void *p = malloc(n);
    if (n == sizeof(co_env))
    {
        ++made;
        env = p;
    }
    return p;
}
void operator delete(void *p) noexcept
{
    if (p != nullptr && p == env)
    {
        ++gone;
    }
    free(p);
}
void operator delete(void *p, size_t) noexcept
{
    operator delete(p);
}

struct at_end
{
    ~at_end()
    {
        printf("environments made %d, destroyed %d\n", made.load(), gone.load());
        fflush(stdout);
        _exit(made != gone);
    }
} end;

int main()
{
    setenv("HOLD", "1", 1);
    co_manager::instance()->current_env();
    return 0;
}
