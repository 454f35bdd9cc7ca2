#include <sys/socket.h>
#include "pre.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_server.h"
#include "cocpp/io/co_file.h"
struct server : co_server
{
    co_error listen(int n) override { return co_server::listen(n); }
    std::tuple<std::shared_ptr<co_client>, co_error> accept() override { return {nullptr, co_error()}; }
    co_error close() override { return co_server::close(); }
    co_net get_endpoint() override { return co_server::get_endpoint(); }
};
int main() { co_server *volatile s = new server; s->close(); expect("a server class can be derived and linked", true); _exit(bad); }
