#include "cocpp/cocpp.h"
#include <atomic>
#include <cstdio>
#include <stdexcept>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace cocpp;
using namespace std::chrono_literals;
static int bad = 0;
static void expect(const char *what, bool ok) { printf("%d %s\n", ok, what); fflush(stdout); if (!ok) bad = 1; }
template <class F> static bool within(int ms, F f) { for (int i = 0; i < ms / 10 && !f(); ++i) this_co::sleep_for(10ms); return f(); }
