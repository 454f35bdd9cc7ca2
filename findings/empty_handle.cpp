#include "pre.h"
int main()
{
    co b([] {
        co a([] { return 1; });
        a.detach();
        bool t1 = false, t2 = false;
        try { a.wait<int>(); } catch (const std::exception &) { t1 = true; }
        expect("waiting for a value of an empty handle throws", t1);
        try { a.wait_for(1ms); } catch (const std::exception &) { t2 = true; }
        expect("a timed wait of an empty handle throws", t2);
    });
    b.wait<void>();
    _exit(bad);
}
