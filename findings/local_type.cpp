// Coroutine-local storage read with another type than it was stored with.
#include "cocpp/cocpp.h"
#include <csignal>
#include <cstdio>
#include <string>
#include <typeinfo>
#include <unistd.h>

using namespace cocpp;

int main()
{
    int bad = 1;
    co c([&] {
        signal(SIGSEGV, [](int) { puts("memory fault"); _exit(1); });
        CoLocal(value, int) = 3;
        try
        {
            CoLocal(value, std::string) = "x";
            puts("another type accepted");
        }
        catch (const std::bad_cast &)
        {
            bad = CoLocal(value, int) != 3;
        }
    });
    c.join();
    return bad;
}
