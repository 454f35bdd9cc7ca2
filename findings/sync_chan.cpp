#include "pre.h"
int main()
{
    static co_chan<int> ch(0); static std::atomic<int> sent{0}, got{0};
    std::vector<co> v;
    for (int i = 0; i < 4; ++i) { v.emplace_back([] { for (int k = 0; k < 10; ++k) if (ch.push(k)) ++sent; }); v.back().detach(); }
    co r([] { while (ch.pop()) ++got; }); r.detach();
    expect("several senders on an unbuffered channel all get through", within(3000, [] { return got == 40 && sent == 40; }));
    _exit(bad);
}
