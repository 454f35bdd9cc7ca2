// System call results injected by interposition; each line must say 1.
#define _GNU_SOURCE 1
#include <cstdarg>
#include <sys/socket.h>
#include "pre.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_server.h"
#include "cocpp/io/co_file.h"
#include <dlfcn.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <errno.h>
static int fail_fcntl, intr_read, intr_write, again_sendto;
static int last_closed = -1;
extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a);
    if (fail_fcntl) { errno = EINVAL; return -1; }
    return ((int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl"))(fd, cmd, p);
}
extern "C" int fcntl64(int fd, int cmd, ...)
{
    va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a);
    return fcntl(fd, cmd, p);
}
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    if (intr_read) { --intr_read; errno = EINTR; return -1; }
    return ((ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"))(fd, b, n);
}
extern "C" ssize_t sendto(int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l)
{
    if (again_sendto) { --again_sendto; errno = EAGAIN; return -1; }
    return ((ssize_t(*)(int, const void *, size_t, int, const sockaddr *, socklen_t))dlsym(RTLD_NEXT, "sendto"))(fd, b, n, f, a, l);
}
extern "C" int close(int fd)
{
    last_closed = fd;
    return ((int (*)(int))dlsym(RTLD_NEXT, "close"))(fd);
}
struct client : co_client
{
    std::tuple<size_t, co_error> read(co_buffer &b) override { return co_client::read(b); }
    co_error read_n(co_buffer &b) override { return co_client::read_n(b); }
    std::tuple<size_t, co_error> write(const co_buffer &b) override { return co_client::write(b); }
    co_error write_n(const co_buffer &b) override { return co_client::write_n(b); }
    co_error close() override { return co_client::close(); }
    co_net get_endpoint() override { return co_client::get_endpoint(); }
    client(int fd) { endpoint__.init_fd(fd); }
};
int main()
{
    static std::atomic<int> r;
    char path[] = "/tmp/cocpp-io-XXXXXX";
    int t = mkstemp(path);
    (void)!ftruncate(t, 5LL << 30);
    {
        auto f = co_file::open(path, O_RDWR);
        intr_read = 1;
        char c;
        expect("an interrupted read is tried again", f->read(&c, 1) == 1);
        expect("lseek returns offsets beyond 2 GiB", (long long)f->lseek(3LL << 30, SEEK_SET) == (3LL << 30));
        f->fcntl(F_SETFD, FD_CLOEXEC);
        int on = 1;
        bool a = f->fcntl(F_GETFD) == FD_CLOEXEC;
        f->fcntl(F_SETFD, 0);
        expect("fcntl passes its argument", a && f->fcntl(F_GETFD) == 0);
        int n = -1;
        f->lseek(0, SEEK_SET);
        expect("ioctl passes its argument", f->ioctl(FIONREAD, &n) == 0 && n > 0);
        (void)on;
        f->close();
    }
    {
        int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
        client c(sv[0]);
        (void)!::write(sv[1], "abc", 3);
        ::close(sv[1]);
        r = 0;
        co a([&] { co_buffer b; b.resize(10); r = c.read_n(b) ? 1 : 2; });
        a.detach();
        expect("a whole-buffer read ends with an error at the end of the stream", within(500, [] { return r == 1; }));
    }
    {
        again_sendto = 1;
        auto s = co_net::socket(AF_INET, SOCK_DGRAM, 0);
        sockaddr_in d {}; d.sin_family = AF_INET; d.sin_port = htons(9); d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        expect("a sendto that would block is tried again", s->sendto("x", 1, 0, (sockaddr *)&d, sizeof d) == 1);
    }
    {
        auto l = co_net::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in d {}; d.sin_family = AF_INET; d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        l->bind((sockaddr *)&d, sizeof d);
        socklen_t n = sizeof d; 
        int fd = *(int *)((char *)&*l + sizeof(void *));
        getsockname(fd, (sockaddr *)&d, &n);
        auto s = co_net::socket(AF_INET, SOCK_STREAM, 0);
        int q = s->connect((sockaddr *)&d, sizeof d);
        expect("connecting to a port nobody listens on fails", q == -1);
    }
    {
        sockaddr_in d {}; d.sin_family = AF_INET; d.sin_port = htons(9); d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        auto s = co_net::socket(AF_INET, SOCK_DGRAM, 0);
        errno = 0;
        expect("a connection that succeeds at once is a success", s->connect((sockaddr *)&d, sizeof d) == 0);
    }
    {
        fail_fcntl = 1; last_closed = -1;
        auto f = co_file::open(path, O_RDONLY);
        fail_fcntl = 0;
        expect("a descriptor that cannot be set up is closed and not handed out", !f && last_closed >= 0);
    }
    unlink(path);
    _exit(bad);
}
