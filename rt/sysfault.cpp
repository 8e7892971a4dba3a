// Interception by a seccomp filter that raises SIGSYS for the watched calls unless they come from our own stub:
// it sees every call however it was made (stdio, iostreams, direct).
#include "sysfault.h"
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

asm(".text\n.globl sf_raw\n.type sf_raw,@function\nsf_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl sf_raw_ret\nsf_raw_ret:\n ret\n.size sf_raw,.-sf_raw\n");
extern "C" long sf_raw(long nr, long a, long b, long c, long d, long e, long f); extern "C" char sf_raw_ret[];

namespace sf {
const char* const NAME[] = {"open", "write", "close", "mkdir", "sync", "truncate", "rename", "unlink", "fstat"};
static bool on, installed, stats_too; static volatile int inside; static std::string root; static Policy pol; static char paths[1024][120]; static bool watched[1024];
static const int NRS[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_mkdir, SYS_mkdirat, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_truncate, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_fstat, SYS_newfstatat};
static bool below(const char* p) {
    if (!p) return false;
    if (p[0] == '/') return !strncmp(p, root.c_str(), root.size());
    char cw[512]; long k = sf_raw(SYS_getcwd, (long)cw, sizeof cw, 0, 0, 0, 0); return k > 0 && !strncmp(cw, root.c_str(), root.size());
}
static bool ours(long fd) { return fd >= 0 && fd < 1024 && watched[fd]; }
static long opened(long r, const char* p) { if (r >= 0 && r < 1024) { watched[r] = true; snprintf(paths[r], sizeof paths[r], "%s", p); } return r; }
static long act(long nr, long a, long b, long c, long d, long e, long f) {
    auto raw = [&] { return sf_raw(nr, a, b, c, d, e, f); };
    if (!on || inside) return raw();
    Ev v{OPEN, -1, "", 0, 0};
    switch (nr) {
        case SYS_open: case SYS_creat: v.path = (const char*)a; v.flags = nr == SYS_creat ? O_CREAT | O_WRONLY | O_TRUNC : (int)b; if (!below(v.path)) return raw(); break;
        case SYS_openat: v.path = (const char*)b; v.flags = (int)c; if (!below(v.path)) return raw(); break;
        case SYS_write: case SYS_pwrite64: v.call = WRITE; v.fd = (int)a; v.len = (size_t)c; if (!ours(a)) return raw(); break;
        case SYS_writev: { v.call = WRITE; v.fd = (int)a; const iovec* iv = (const iovec*)b; for (long i = 0; i < c; i++) v.len += iv[i].iov_len; if (!ours(a)) return raw(); break; }
        case SYS_close: v.call = CLOSE; v.fd = (int)a; if (!ours(a)) return raw(); break;
        case SYS_fsync: case SYS_fdatasync: v.call = SYNC; v.fd = (int)a; if (!ours(a)) return raw(); break;
        case SYS_ftruncate: v.call = TRUNCATE; v.fd = (int)a; v.len = (size_t)b; if (!ours(a)) return raw(); break;
        case SYS_truncate: v.call = TRUNCATE; v.path = (const char*)a; v.len = (size_t)b; if (!below(v.path)) return raw(); break;
        case SYS_mkdir: v.call = MKDIR; v.path = (const char*)a; if (!below(v.path)) return raw(); break;
        case SYS_mkdirat: v.call = MKDIR; v.path = (const char*)b; if (!below(v.path)) return raw(); break;
        case SYS_rename: v.call = RENAME; v.path = (const char*)a; if (!below(v.path)) return raw(); break;
        case SYS_renameat: case SYS_renameat2: v.call = RENAME; v.path = (const char*)b; if (!below(v.path)) return raw(); break;
        case SYS_unlink: v.call = UNLINK; v.path = (const char*)a; if (!below(v.path)) return raw(); break;
        case SYS_unlinkat: v.call = UNLINK; v.path = (const char*)b; if (!below(v.path)) return raw(); break;
        case SYS_fstat: v.call = STAT; v.fd = (int)a; if (!stats_too || !ours(a)) return raw(); break;
        case SYS_newfstatat: v.call = STAT; v.fd = (int)a; if (!stats_too || !b || *(const char*)b || !ours(a)) return raw(); break;
        default: return raw();
    }
    if (v.fd >= 0) v.path = paths[v.fd];
    inside = 1; Ans r = pol(v); inside = 0;
    if (r.what == Ans::OK) { long k = raw(); if (v.call == OPEN) opened(k, v.path); if (v.call == CLOSE && ours(v.fd)) watched[v.fd] = false; return k; }
    if (r.what == Ans::SHORT) {
        if (nr == SYS_writev) { const iovec* iv = (const iovec*)b; size_t left = r.n; long done = 0; for (long i = 0; i < c && left; i++) { size_t n = iv[i].iov_len < left ? iv[i].iov_len : left; long k = sf_raw(SYS_write, a, (long)iv[i].iov_base, n, 0, 0, 0); if (k < 0) return done ? done : k; done += k; left -= (size_t)k; } return done; }
        c = (long)r.n; return raw();
    }
    if (v.call == CLOSE) { raw(); if (ours(v.fd)) watched[v.fd] = false; }       // Linux releases the descriptor whatever close() answers
    return -r.err;
}
static void handler(int, siginfo_t*, void* uc) {
    greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs; int e = errno;
    g[REG_RAX] = act(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
    errno = e;
}
static void install() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
    const int N = sizeof NRS / sizeof *NRS; sock_filter f[N + 12]; int k = 0;
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch));
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int i = 0; i < N; i++) f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)NRS[i], (unsigned char)(N - i), 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(uintptr_t)sf_raw_ret, 0, 2);
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)((uint64_t)(uintptr_t)sf_raw_ret >> 32), 1, 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog p; p.len = (unsigned short)k; p.filter = f;
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) != 0) { dprintf(2, "sysfault: seccomp: %s\n", strerror(errno)); _exit(9); }
    installed = true;
}
void begin(const std::string& dir, Policy p, bool stats) { root = dir; pol = p; stats_too = stats; memset(watched, 0, sizeof watched); if (!installed) install(); on = true; }
void policy(Policy p) { pol = p; }
void end() { on = false; }
}  // namespace sf
