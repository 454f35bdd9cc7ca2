// Values of the library's constants, for the rules that speak about them.
#include "cocpp/co/co_co.h"
#include "cocpp/core/co_define.h"
#include "cocpp/core/co_error.h"
#include "cocpp/core/co_timer.h"
#include "cocpp/core/co_type.h"

#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/ucontext.h>

using namespace cocpp;

namespace value
{
int ctx_suspended() { return (int)co_state::suspended; }
int ctx_running() { return (int)co_state::running; }
int ctx_finished() { return (int)co_state::finished; }
int env_idle() { return (int)co_env_state::idle; }
int env_busy() { return (int)co_env_state::busy; }
int env_blocked() { return (int)co_env_state::blocked; }
int env_destroying() { return (int)co_env_state::destroying; }
int env_created() { return (int)co_env_state::created; }
int flag_waiting() { return CO_CTX_FLAG_WAITING; }
int flag_locked() { return CO_CTX_FLAG_LOCKED; }
int flag_bind() { return CO_CTX_FLAG_BIND; }
int flag_idle() { return CO_CTX_FLAG_IDLE; }
int flag_shared() { return CO_CTX_FLAG_SHARED_STACK; }
int flag_no_thread() { return CO_ENV_FLAG_NO_SCHE_THREAD; }
int flag_converted() { return CO_ENV_FLAG_CONVERTED; }
int flag_scheduled() { return CO_ENV_FLAG_SCHEDULED; }
int flag_keep() { return CO_ENV_FLAG_DONT_AUTO_DESTROY; }
int flag_exclusive() { return CO_ENV_FLAG_EXCLUSIVE; }
int max_priority() { return CO_MAX_PRIORITY; }
int idle_priority() { return CO_IDLE_CTX_PRIORITY; }
int tick_ms() { return (int)DEFAULT_TIMING_TICK_DURATION_IN_MS; }
int switch_signal() { return CO_SWITCH_SIGNAL; }
int timer_once() { return (int)co_expire_type::once; }
enum
{
    copyable = std::is_copy_constructible_v<co> || std::is_copy_assignable_v<co>
};
int handle_copyable() { return copyable; }
int timer_loop() { return (int)co_expire_type::loop; }
int err_intr() { return EINTR; }
int err_again() { return EAGAIN; }
int err_wouldblock() { return EWOULDBLOCK; }
int err_inprogress() { return EINPROGRESS; }
int get_flags() { return F_GETFL; }
int set_flags() { return F_SETFL; }
int nonblock() { return O_NONBLOCK; }
int append() { return O_APPEND; }
int rdwr() { return O_RDWR; }
int sock_nonblock() { return SOCK_NONBLOCK; }
int sock_stream() { return SOCK_STREAM; }
int so_error() { return SO_ERROR; }
int sol_socket() { return SOL_SOCKET; }
int code_ok() { return (int)co_error_code::ok; }
int code_listen() { return (int)co_error_code::co_server_listen_error; }
int code_server_close() { return (int)co_error_code::co_server_close_error; }
int code_read() { return (int)co_error_code::co_client_read_error; }
int code_write() { return (int)co_error_code::co_client_write_error; }
int code_client_close() { return (int)co_error_code::co_client_close_error; }
int greg_r8() { return REG_R8; }
int greg_r9() { return REG_R9; }
int greg_r10() { return REG_R10; }
int greg_r11() { return REG_R11; }
int greg_r12() { return REG_R12; }
int greg_r13() { return REG_R13; }
int greg_r14() { return REG_R14; }
int greg_r15() { return REG_R15; }
int greg_rdi() { return REG_RDI; }
int greg_rsi() { return REG_RSI; }
int greg_rbp() { return REG_RBP; }
int greg_rbx() { return REG_RBX; }
int greg_rdx() { return REG_RDX; }
int greg_rax() { return REG_RAX; }
int greg_rcx() { return REG_RCX; }
int greg_rsp() { return REG_RSP; }
int greg_rip() { return REG_RIP; }
int greg_flags() { return REG_EFL; }
}
