// A coroutine with a stack size that is not a multiple of 16 starts on a misaligned stack.
#include "cocpp/cocpp.h"
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <string>
#include <unistd.h>

using namespace cocpp;

int main()
{
    co c({with_stack_size(131073)}, [](double x) {
        signal(SIGSEGV, [](int) { _exit(1); });
        alignas(16) volatile char b[16];
        std::string s = "value " + std::to_string(x);
        puts(s.c_str());
        fflush(stdout);
        if ((uintptr_t)b % 16)
        {
            puts("misaligned");
            _exit(1);
        }
    }, 2.5);
    c.join();
    _exit(0);
}
