// Instantiates the library's templates so that the analyses see their bodies.
#include "cocpp/cocpp.h"
#include "cocpp/event/co_event.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_file.h"
#include "cocpp/io/co_server.h"
#include "cocpp/sync/co_spinlock.h"
#include "cocpp/utils/co_any.h"
#include "cocpp/utils/co_utils.h"
#include <chrono>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <vector>

using namespace cocpp;
using namespace std::chrono_literals;

template class cocpp::co_chan<int>;
template class cocpp::co_event<int>;
template class cocpp::co_event<>;
template class cocpp::co_counting_semaphore<1>;
template class cocpp::co_counting_semaphore<7>;
template class cocpp::co_timed_addition<co_mutex>;
template class cocpp::co_timed_addition<co_recursive_mutex>;
template class cocpp::co_timed_addition<co_shared_mutex>;

// functions of the user: declared only, so that the analyses decide what they do
struct user_pred
{
    bool operator()() const;
};
struct user_fn
{
    void operator()(int &a) const;
};

struct user_val
{
    int operator()(int a) const;
};
struct user_void
{
    void operator()(int a) const;
};

void drive_chan()
{
    co_chan<int> a(4), b(0), c(-1);
    int v = 0;
    bool ok = a < 3;
    ok = a > v;
    a << 4;
    a >> v;
    for (auto &i : a)
        v = i;
    (void)ok;
}
void drive_cv()
{
    co_mutex mu;
    std::unique_lock<co_mutex> lock(mu);
    co_condition_variable cv;
    user_pred f;
    auto tp = std::chrono::steady_clock::now();
    cv.wait(lock);
    cv.wait(lock, f);
    cv.wait_for(lock, 10ms);
    cv.wait_for(lock, 10ns);
    cv.wait_for(lock, 10ms, f);
    cv.wait_until(lock, tp);
    cv.wait_until(lock, tp, f);
    co_shared_mutex smu;
    std::shared_lock<co_shared_mutex> sl(smu);
    cv.wait(sl);
    notify_all_at_co_exit(cv);
}
void drive_sync()
{
    auto tp = std::chrono::steady_clock::now();
    co_counting_semaphore<7> s(3);
    s.try_acquire_for(10ms);
    s.try_acquire_until(tp);
    co_binary_semaphore bs(1);
    bs.try_acquire_until(tp);
    co_timed_mutex tm;
    tm.try_lock_for(10ms);
    tm.try_lock_until(tp);
    co_recursive_timed_mutex rtm;
    rtm.try_lock_for(10ms);
    rtm.try_lock_until(tp);
    co_shared_timed_mutex stm;
    stm.try_lock_for(10ms);
    stm.try_lock_until(tp);
    stm.try_lock_shared_for(10ms);
    stm.try_lock_shared_until(tp);
    co_once_flag flag;
    int arg = 1;
    co_call_once(flag, user_fn(), arg);
}
void drive_co()
{
    co c([](int a) { return a; }, 1);
    co d([](int a) {}, 1);
    co e({with_priority(1), with_name("x"), with_bind_env(nullptr), with_shared_stack(true), with_stack_size(1)}, []() {});
    int r = c.wait<int>();
    d.wait<void>();
    auto o = c.wait_for(10ms);
    auto p = c.wait_until(std::chrono::steady_clock::now() + 10ms);
    if (o)
        r = *o;
    co m(std::move(c));
    d = std::move(m);
    d.detach();
    e.join();
    this_co::sleep_for(10ms);
    this_co::sleep_until(std::chrono::steady_clock::now());
    CoLocal(lv, int) = 3;
    co_any any = 3;
    any = std::string("x");
    r = any.get<int>();
    co_any any2 = any;
    any2 = any;
    std::string str = any.get<std::string>();
    co_return_value rv(any);
    r = rv;
    std::string str2 = rv;
}
// local storage of the current coroutine
int &local_a() { return CoLocal(a, int); }
int &local_b() { return CoLocal(b, int); }
std::string &local_a_string() { return CoLocal(a, std::string); }
void drive_handle()
{
    co a(user_val(), 1);
    co b(user_void(), 1);
    co c({with_priority(1)}, user_val(), 1);
}
struct user_accept
{
    bool operator()(int a) const;
};
struct user_fold
{
    int operator()(int a, int b) const;
};
struct user_many
{
    int operator()(std::vector<int> g) const;
};
struct user_next
{
    std::optional<int> operator()() const;
};
struct user_iter
{
    int &operator*() const;
    user_iter &operator++();
    bool operator!=(const user_iter &other) const;
};
// one function per stage and source; each returns the channel of the result
co_chan<int> pipe_filter(co_pipeline<int> &p, user_accept &f) { return p | pipeline::filter<user_accept>(f) | pipeline::chan(); }
co_chan<int> pipe_map(co_pipeline<int> &p, user_val &f) { return p | f | pipeline::chan(); }
co_chan<int> pipe_fork(co_pipeline<int> &p, user_val &f, size_t n) { return p | pipeline::fork<user_val>(n, f) | pipeline::chan(); }
co_chan<int> pipe_group(co_pipeline<int> &p, user_many &f, size_t n) { return p | pipeline::group<user_many>(n, f) | pipeline::chan(); }
co_chan<int> pipe_reduce(co_pipeline<int> &p, user_fold &f, int a) { return p | pipeline::reduce<user_fold, int>(f, a) | pipeline::chan(); }
co_chan<int> pipe_take(co_pipeline<int> &p, size_t n) { return p | pipeline::take(n) | pipeline::chan(); }
co_chan<int> pipe_skip(co_pipeline<int> &p, size_t n) { return p | pipeline::skip(n) | pipeline::chan(); }
std::vector<int> pipe_to(co_pipeline<int> &p) { return p | pipeline::to<std::vector<int>>(); }
co_chan<int> pipe_stream(std::vector<int> &v) { return v | pipeline::stream() | pipeline::chan(); }
co_chan<int> pipe_collection(std::vector<int> &v) { return co_pipeline<int>(v) | pipeline::chan(); }
co_chan<int> pipe_list(std::initializer_list<int> &v) { return co_pipeline<int>(v) | pipeline::chan(); }
co_chan<int> pipe_iter(user_iter &a, user_iter &b) { return co_pipeline<int>(a, b) | pipeline::chan(); }
co_chan<int> pipe_steps(int a, int b, int c) { return co_pipeline<int>(a, b, c) | pipeline::chan(); }
co_chan<int> pipe_next(user_next &f) { return co_pipeline<int>(f) | pipeline::chan(); }
void drive_pipeline()
{
    using namespace pipeline;
    std::vector<int> v {1, 2};
    int arr[] = {1, 2};
    auto p = v | stream(3);
    co_pipeline<int> q({1, 2, 3});
    co_pipeline<int> it(v);
    co_pipeline<int> inc(0, 10, 2);
    co_pipeline<int> gen([]() -> std::optional<int> { return std::nullopt; });
    auto w = q | filter([](int) { return true; }) | [](int a) { return a + 1; } | to<std::vector<int>>();
    auto r = it | reduce([](int a, int b) { return a + b; }, 0) | chan();
    auto t = inc | take(2) | skip(1) | pipeline::fork(2, [](int a) { return a; }) | group(2, [](std::vector<int> g) { return (int)g.size(); }) | chan();
    auto u = gen | take(1) | to<std::vector<int>>();
    (void)w;
    (void)r;
    (void)t;
    (void)u;
    (void)arr;
}
