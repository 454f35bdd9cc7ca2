#include "pre.h"
template <class P> static bool source_stops(P make)
{
    static std::atomic<long> n; n = 0;
    auto src = []() -> std::optional<int> { ++n; this_co::sleep_for(1ms); return 1; };
    co_pipeline<int> p(src);
    auto ch = make(p) | pipeline::chan();
    ch.pop();
    ch.close();
    this_co::sleep_for(200ms);
    long a = n;
    this_co::sleep_for(200ms);
    return n == a;
}
int main()
{
    expect("map stops its source when the consumer has gone", source_stops([](auto &p) { return p | [](int x) { return x; }; }));
    expect("filter stops its source when the consumer has gone", source_stops([](auto &p) { return p | pipeline::filter([](int x) { return true; }); }));
    expect("skip stops its source when the consumer has gone", source_stops([](auto &p) { return p | pipeline::skip(1); }));
    expect("fork stops its source when the consumer has gone", source_stops([](auto &p) { return p | pipeline::fork(2, [](int x) { return x; }); }));
    {
        static std::atomic<int> r{0};
        co a([] {
            auto ch = co_pipeline<int>(std::vector<int> {1, 2, 3}) | pipeline::filter([](int x) -> bool { if (x == 2) throw std::runtime_error("x"); return true; }) | pipeline::chan();
            while (ch.pop()) ; r = 1; });
        a.detach();
        expect("a stage whose function throws closes its output", within(1000, [] { return r == 1; }));
    }
    {
        static std::vector<std::string> out;
        auto make = [] { return co_pipeline<std::string>({std::string("a long string number one"), std::string("a long string number two")}, 1) | pipeline::chan(); };
        auto ch = make();
        this_co::sleep_for(50ms);
        char junk[4096]; for (auto &c : junk) c = 'x'; asm volatile("" ::"r"(junk) : "memory");
        while (auto s = ch.pop()) out.push_back(*s);
        expect("a pipeline from an initializer list keeps its items", out.size() == 2 && out[0] == "a long string number one" && out[1] == "a long string number two");
    }
    _exit(bad);
}
