#include "seq.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sched.h>
#include <vector>
#include <string>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16;
static const int MAXC = 120, STACKCAP = 1 << 19, NSLOT = 64, HISTCAP = 1500;   // a worker process is replaced after HISTCAP executions
static const u32 SETCAP = 1u << 22;
enum { RS_NONE = 0, RS_OK, RS_PRUNED, RS_VIOL, RS_INTERNAL };
struct Item { u16 n, lastn; u16 c[MAXC]; };            // forced choices; lastn = arity of the last one
struct Hist { int n; Item it[HISTCAP]; };
struct Slot {
    u32 res; int nc; u16 c[MAXC], ar[MAXC], free_[MAXC]; int forced; u32 newc; u64 ops, bulk;
    char kind[16], msg[3000], trace[6000]; u32 tlen; u64 ms0;
};
struct SetE { u64 h; u32 rem; u32 pad; };
struct Shm {
    volatile int lock; volatile int stop; volatile int top, active; volatile int viol, overflow, internal, toolong, setfull;
    volatile u64 execs, pruned, trans, states, nodes, bulk; volatile u32 nout; u32 nsamp; char samp[5][600]; u32 maxlen;
    Slot slot[NSLOT]; Slot vslot; int vworker; char imsg[600];
};
static Hist* HIST; static Shm* S; static Item* STK; static SetE* SET; static u64* OUTS; static const u32 OUTCAP = 1 << 18;
static Slot* SL; static Item pre; static int devleft; static mc::Scenario *scns, *cur; static bool g_thorough; static int g_wid; static int fork_mode; static bool g_replay, g_noprune;
static std::string base_dir; static char wdir[300]; static bool dir_used;
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// by base names, from directory to directory: trees may be deeper than a path can be long
static void rmone(const char* n) {
    if (::unlink(n) == 0 || errno == ENOENT) return;
    int f = ::open(n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC); if (f < 0) { ::chmod(n, 0700); f = ::open(n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC); if (f < 0) return; }
    if (fchdir(f) != 0) { ::close(f); return; }
    DIR* d = fdopendir(f); std::vector<std::string> v; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(d);
    for (auto& x : v) rmone(x.c_str()); if (chdir("..") == 0) ::rmdir(n);
}
static void rmtree(const char* p) { int h = ::open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); rmone(p); if (h >= 0) { if (fchdir(h)) {} ::close(h); } }
struct Prune {};

[[noreturn]] static void die(u32 r) { SL->res = r; _exit(r == RS_VIOL ? 7 : 9); }
namespace mc {
Scenario::Scenario(const char* n, void (*b)(), int qd, int td, int qv, int tv, unsigned f) : name(n), body(b), quick_depth(qd), thorough_depth(td), quick_dev(qv), thorough_dev(tv), flags(f), next(nullptr) { Scenario** p = &scns; while (*p) p = &(*p)->next; *p = this; }
int choose(int n) {
    if (n <= 1) return 0;
    int i = SL->nc;
    if (i >= MAXC || n > 65535) { snprintf(SL->msg, sizeof SL->msg, "choice limit"); die(RS_INTERNAL); }
    int v = i < pre.n ? pre.c[i] : 0;
    if (v >= n) { snprintf(SL->msg, sizeof SL->msg, "replay divergence at choice %d: %d of %d", i, v, n); die(RS_INTERNAL); }
    SL->c[i] = (u16)v; SL->ar[i] = (u16)n; SL->free_[i] = 0; SL->nc = i + 1;
    return v;
}
int deviate(int n) {
    if (devleft <= 0) return 0;
    int v = choose(n);
    if (v) devleft--;
    return v;
}
static u64 hs(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; } return h ? h : 1; }
void state(const std::string& s, int rem) {
    if (g_noprune || SL->nc < pre.n) return;
    u64 h = hs(s);
    h = h * 64 + (u64)devleft + 1;      // states are kept apart by remaining deviations
    u32 r = (u32)rem + 1;
    u32 i = (u32)(h ^ (h >> 31)) & (SETCAP - 1);
    for (u32 k = 0; k < 4096; k++, i = (i + 1) & (SETCAP - 1)) {
        u64 z = 0;
        if (__atomic_compare_exchange_n(&SET[i].h, &z, h, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED); z = h; }
        if (z != h) continue;
        for (;;) {
            u32 o = __atomic_load_n(&SET[i].rem, __ATOMIC_ACQUIRE);
            if (o >= r) { if (fork_mode) { SL->res = RS_PRUNED; _exit(0); } throw Prune(); }
            if (__atomic_compare_exchange_n(&SET[i].rem, &o, r, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return;
        }
    }
    S->setfull = 1;
}
void op(const char* fmt, ...) {
    SL->ops++;
    u32 room = sizeof SL->trace - SL->tlen; if (room < 4) return;
    va_list ap; va_start(ap, fmt); int k = vsnprintf(SL->trace + SL->tlen, room - 2, fmt, ap); va_end(ap);
    if (k < 0) return;
    if ((u32)k >= room - 2) k = room - 3;
    SL->tlen += k; SL->trace[SL->tlen++] = '\n'; SL->trace[SL->tlen] = 0;
}
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(SL->msg, sizeof SL->msg, fmt, ap); va_end(ap);
    snprintf(SL->kind, sizeof SL->kind, "property"); die(RS_VIOL);
}
void outcome(const std::string& s) {
    u64 h = hs(s); u32 i = (u32)h & (OUTCAP - 1);
    for (u32 n = 0; n < OUTCAP; n++, i = (i + 1) & (OUTCAP - 1)) {
        u64 z = 0; if (__atomic_compare_exchange_n(&OUTS[i], &z, h, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            u32 k = __atomic_fetch_add(&S->nout, 1, __ATOMIC_RELAXED);
            if (k < 5) snprintf(S->samp[k], sizeof S->samp[k], "%s%s", s.c_str(), ""); return; }
        if (z == h) return;
    }
}
void finish() { SL->res = RS_OK; _exit(0); }
int depth() { return g_thorough ? cur->thorough_depth : cur->quick_depth; }
bool thorough() { return g_thorough; }
const char* scratch() {
    snprintf(wdir, sizeof wdir, "%s/w%d", base_dir.c_str(), g_wid);
    if (!dir_used) { rmtree(wdir); mkdir(wdir, 0777); chmod(wdir, 0777); dir_used = true; }
    return wdir;
}
std::string quote(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
void count(u64 n) { SL->bulk += n; }
}  // namespace mc

static void on_alarm(int) { if (SL) { snprintf(SL->kind, sizeof SL->kind, "hang"); snprintf(SL->msg, sizeof SL->msg, "the execution did not finish within its time limit"); SL->res = RS_VIOL; } _exit(7); }
static void prep(const Item& it) {
    pre = it; SL->nc = 0; SL->ops = 0; SL->bulk = 0; SL->res = RS_NONE; SL->tlen = 0; SL->trace[0] = 0; SL->msg[0] = 0; SL->kind[0] = 0;
    devleft = g_thorough ? cur->thorough_dev : cur->quick_dev; dir_used = false;
}
static void run_body() {       // in the process that executes it
    signal(SIGALRM, on_alarm); alarm(30);
    try { cur->body(); SL->res = RS_OK; } catch (const Prune&) { SL->res = RS_PRUNED; }
    alarm(0);
}
static std::string errfile(int w) { return base_dir + "/err" + std::to_string(w); }
static void redirect_err() { int f = open(errfile(g_wid).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0666); if (f >= 0) { dup2(f, 2); close(f); } int n = open("/dev/null", O_RDWR); dup2(n, 1); if (n > 2) close(n); }
static std::string tail_err(int w) {
    std::string s; FILE* f = fopen(errfile(w).c_str(), "r"); if (!f) return s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > 4000000) break; } fclose(f);
    size_t p = s.find("ERROR: "); if (p == std::string::npos) p = s.find("runtime error"); if (p == std::string::npos) p = s.find("terminate called"); if (p == std::string::npos) p = s.size() > 600 ? s.size() - 600 : 0; else { size_t q = s.rfind('\n', p); p = q == std::string::npos ? 0 : q + 1; }
    return s.substr(p, 1500);
}
static void died(int st, int w) {      // the process that executed it ended without an answer
    if (SL->res != RS_NONE) return;
    snprintf(SL->kind, sizeof SL->kind, "crash");
    snprintf(SL->msg, sizeof SL->msg, "the program ended the process (%s %d): %.1400s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), tail_err(w).c_str());
    SL->res = (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 9) ? RS_INTERNAL : RS_VIOL;
    if (SL->res == RS_INTERNAL) snprintf(SL->msg, sizeof SL->msg, "%s", WIFSIGNALED(st) ? "execution killed (out of memory?)" : tail_err(w).c_str());
}
static void exec_forked(const Item& it, const Item* before = nullptr, int nbefore = 0) {
    prep(it);
    pid_t p = fork();
    if (p == 0) {
        redirect_err();
        for (int i = 0; i < nbefore; i++) { prep(before[i]); run_body(); prep(it); }      // what the same process executed before
        fork_mode = 1; run_body(); _exit(0);
    }
    if (p < 0) { SL->res = RS_INTERNAL; snprintf(SL->msg, sizeof SL->msg, "fork: %s", strerror(errno)); return; }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    died(st, g_wid);
}
static void lockit() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void unlockit() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }
static void push(const Item& it) { if (S->top >= STACKCAP) { S->overflow = 1; return; } STK[S->top] = it; S->top = S->top + 1; }
// after an execution: its new decision points become work
static void account(const Item& it) {
    __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&S->trans, SL->ops ? SL->ops : 1, __ATOMIC_RELAXED); __atomic_fetch_add(&S->bulk, SL->bulk, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->nodes, (u64)(SL->nc >= it.n ? SL->nc - it.n + 1 : 1), __ATOMIC_RELAXED);
    if ((u32)SL->nc > S->maxlen) S->maxlen = SL->nc;
    if (SL->res == RS_PRUNED) __atomic_fetch_add(&S->pruned, 1, __ATOMIC_RELAXED);
    lockit();
    if (SL->res == RS_VIOL && !S->viol) { S->viol = 1; S->vslot = *SL; S->vworker = g_wid; S->stop = 1; }
    if (SL->res == RS_INTERNAL) { S->internal = 1; snprintf(S->imsg, sizeof S->imsg, "%.590s", SL->msg); S->stop = 1; }
    if (SL->res == RS_OK || SL->res == RS_PRUNED)
        for (int i = it.n; i < SL->nc; i++) { Item a; a.n = (u16)(i + 1); memcpy(a.c, SL->c, sizeof(u16) * (i + 1)); a.c[i] = 1; a.lastn = SL->ar[i]; push(a); }
    S->active = S->active - 1;
    unlockit();
}
static bool take(Item& it) {
    for (;;) {
        if (S->stop) return false;
        lockit();
        if (S->top > 0) {
            it = STK[S->top - 1];
            if (it.n && it.c[it.n - 1] + 1 < it.lastn) STK[S->top - 1].c[it.n - 1]++; else S->top = S->top - 1;
            S->active = S->active + 1; unlockit(); return true;
        }
        bool idle = S->active == 0; unlockit();
        if (idle) return false;
        timespec t = {0, 100000}; nanosleep(&t, nullptr);
    }
}
static void worker(int w, double dl) {
    g_wid = w; SL = &S->slot[w];
    redirect_err();
    Item it;
    u64 k = 0;
    while (take(it)) {
        if ((++k & 63) == 0 || (cur->flags & mc::F_FORK)) { if (wall() > dl) { lockit(); S->stop = 2; unlockit(); } if ((k & 1023) == 0) { if (ftruncate(2, 0)) {} } }
        if (cur->flags & mc::F_FORK) exec_forked(it); else { Hist& h = HIST[w]; h.it[h.n++] = it; prep(it); run_body(); }
        account(it);
        if (HIST[w].n >= HISTCAP) _exit(11);
    }
    _exit(0);
}
static void* mapmem(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
static void jesc(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fputc('\\', f), fputc(c, f); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char** argv) {
    double budget = 60; int workers = 8; const char *out = nullptr, *only = nullptr, *replay = nullptr, *rdir = "."; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--tier") g_thorough = !strcmp(nx(), "thorough"); else if (a == "--time") budget = atof(nx()); else if (a == "--workers") workers = atoi(nx());
        else if (a == "--out") out = nx(); else if (a == "--scenario") only = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replay-dir") rdir = nx(); else if (a == "--list") list = true;
        else if (a == "--quiet") ; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (list) { for (auto* s = scns; s; s = s->next) printf("%s\n", s->name); return 0; }
    if (workers < 1) workers = 1;
    if (workers > 60) workers = 60;
    const char* tmp = getenv("TMPDIR"); base_dir = std::string(tmp && strlen(tmp) < 100 ? tmp : "/tmp") + "/mcseq." + std::to_string(getpid()); mkdir(base_dir.c_str(), 0777); chmod(base_dir.c_str(), 0777);
    S = (Shm*)mapmem(sizeof(Shm)); STK = (Item*)mapmem(sizeof(Item) * (size_t)STACKCAP); SET = (SetE*)mapmem(sizeof(SetE) * (size_t)SETCAP); OUTS = (u64*)mapmem(8 * OUTCAP); HIST = (Hist*)mapmem(sizeof(Hist) * NSLOT);
    if (replay) {
        FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 3; }
        char l[4000], sn[200] = "", tier[20] = ""; Item it; memset(&it, 0, sizeof it); unsigned a; std::vector<Item> bef;
        while (fgets(l, sizeof l, f)) { if (sscanf(l, "scenario %199s", sn) == 1) continue; if (sscanf(l, "tier %19s", tier) == 1) continue; if (!strncmp(l, "run", 3)) { bef.push_back(it); memset(&it, 0, sizeof it); continue; } if (sscanf(l, "choice %u", &a) == 1 && it.n < MAXC) it.c[it.n++] = (u16)a; }
        fclose(f); g_thorough = !strcmp(tier, "thorough");
        for (cur = scns; cur && strcmp(cur->name, sn); cur = cur->next) ;
        if (!cur) { fprintf(stderr, "no scenario %s\n", sn); return 3; }
        SL = &S->slot[0]; g_replay = g_noprune = true; exec_forked(it, bef.data(), (int)bef.size()); printf("%s", tail_err(0).c_str()); rmtree(base_dir.c_str());
        printf("%s\nreplay result: %s %s %s\n", SL->trace, SL->res == RS_VIOL ? "VIOLATION" : SL->res == RS_OK ? "ok" : "other", SL->kind, SL->msg);
        return SL->res == RS_VIOL ? 1 : SL->res == RS_OK ? 0 : 3;
    }
    std::vector<mc::Scenario*> todo; for (auto* s = scns; s; s = s->next) if (only ? !strcmp(only, s->name) : (g_thorough ? s->thorough_depth : s->quick_depth) >= 0) todo.push_back(s);      // a negative depth: not in this tier
    if (todo.empty()) { fprintf(stderr, "no such scenario\n"); return 3; }
    FILE* jf = out ? fopen(out, "w") : nullptr; if (jf) fprintf(jf, "{\"scenarios\": [");
    double tend = wall() + budget; int nviol = 0; bool first = true;
    for (size_t si = 0; si < todo.size(); si++) {
        cur = todo[si]; double t0 = wall(), slice = (tend - t0) / (todo.size() - si); if (!g_thorough) slice = std::min(tend - t0, (tend - t0) / 3 + slice); if (slice < 1) slice = 1;
        memset((void*)S, 0, sizeof *S); madvise(SET, sizeof(SetE) * (size_t)SETCAP, MADV_REMOVE); memset(OUTS, 0, 8 * OUTCAP);
        Item root; memset(&root, 0, sizeof root); STK[0] = root; S->top = 1;
        fflush(stdout); if (jf) fflush(jf);
        std::vector<pid_t> ps;
        for (int w = 0; w < workers; w++) HIST[w].n = 0;
        for (int w = 0; w < workers; w++) { pid_t p = fork(); if (p == 0) worker(w, t0 + slice); ps.push_back(p); }
        for (int left = workers; left > 0; ) {
            int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
            for (int w = 0; w < workers; w++) if (ps[w] == p) { left--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { HIST[w].n = 0; left++; ps[w] = fork(); if (ps[w] == 0) worker(w, t0 + slice); continue; }
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {     // a worker died inside an execution
                    SL = &S->slot[w]; died(st, w); lockit();
                    if (SL->res == RS_VIOL && !S->viol) { S->viol = 1; S->vslot = *SL; S->vworker = w; }
                    if (SL->res == RS_INTERNAL) { S->internal = 1; snprintf(S->imsg, sizeof S->imsg, "%.590s", SL->msg); }
                    S->stop = 1; unlockit(); } }
        }
        bool viol = false; std::string why;
        if (S->viol) {
            Slot v = S->vslot; Item it; memset(&it, 0, sizeof it); it.n = (u16)v.nc; memcpy(it.c, v.c, sizeof it.c); int ok = 0; g_wid = 63; SL = &S->slot[63]; g_noprune = true;
            Hist& h = HIST[S->vworker]; int before = 0, avail = (cur->flags & mc::F_FORK) || h.n < 1 ? 0 : h.n - 1; auto confirm = [&](int b) { int k = 0; for (; k < 2; k++) { exec_forked(it, h.it + avail - b, b); if (SL->res != RS_VIOL || strcmp(SL->kind, v.kind)) break; } return k; };
            ok = confirm(0);      // alone; else after the last 1, 3, 7 ... executions of the same process
            for (int b = 1; ok != 2 && avail; b = 2 * b + 1) { before = b < avail ? b : avail; ok = confirm(before); if (before == avail) break; }
            g_noprune = false;
            if (ok == 2) {
                viol = true; nviol++; Slot& q = *SL;
                std::string rp = std::string(rdir) + "/" + cur->name + ".replay"; FILE* f = fopen(rp.c_str(), "w");
                if (f) { fprintf(f, "scenario %s\ntier %s\nkind %s\nmsg %s\n", cur->name, g_thorough ? "thorough" : "quick", q.kind, mc::quote(q.msg).c_str()); for (int b = 0; b < before; b++) { Item& q0 = h.it[avail - before + b]; for (int i = 0; i < q0.n; i++) fprintf(f, "choice %u\n", q0.c[i]); fprintf(f, "run\n"); } for (int i = 0; i < it.n; i++) fprintf(f, "choice %u\n", it.c[i]); std::string t = q.trace; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); fprintf(f, "# %s\n", t.substr(p, e - p).c_str()); p = e + 1; } fclose(f); }
                printf("FAIL scenario=%s kind=%s replay=%s\n  %s\n%s", cur->name, q.kind, rp.c_str(), q.msg, q.trace);
                if (jf) { fprintf(jf, "%s\n{\"name\": \"%s\", \"violation\": true, \"kind\": \"%s\", \"replay\": ", first ? "" : ",", cur->name, q.kind); jesc(jf, rp.c_str()); fprintf(jf, ", \"msg\": "); jesc(jf, q.msg); fprintf(jf, ", \"stack\": "); jesc(jf, q.trace); }
            } else { why = std::string("unconfirmed failure: ") + v.kind + " " + v.msg; }
        }
        if (S->stop == 2) why = "time"; else if (S->overflow) why = "work stack full"; else if (S->setfull) why = "state set full"; else if (S->internal) why = std::string("internal: ") + S->imsg;
        bool inc = viol || !why.empty(); double dt = wall() - t0; u64 states = S->states ? S->states : S->nodes;
        if (!viol) { printf("%s scenario=%s execs=%lu (pruned %lu) states=%lu ops=%lu comparisons=%lu outcomes=%u maxchoices=%u %.1fs %s\n", inc ? "PART" : "PASS", cur->name, (long)S->execs, (long)S->pruned, (long)states, (long)S->trans, (long)S->bulk, S->nout, S->maxlen, dt, why.c_str());
            if (jf) fprintf(jf, "%s\n{\"name\": \"%s\", \"violation\": false", first ? "" : ",", cur->name); }
        if (jf) { fprintf(jf, ", \"depth\": %d, \"deviations\": %d, \"complete\": %s, \"executions\": %lu, \"pruned\": %lu, \"states\": %lu, \"transitions\": %lu, \"comparisons\": %lu, \"outcomes\": %u, \"wall_s\": %.2f, \"note\": ", mc::depth(), g_thorough ? cur->thorough_dev : cur->quick_dev, inc ? "false" : "true", (long)S->execs, (long)S->pruned, (long)states, (long)S->trans, (long)S->bulk, S->nout, dt); jesc(jf, why.c_str());
            fprintf(jf, ", \"samples\": ["); for (u32 q = 0; q < S->nout && q < 5; q++) { if (q) fputc(',', jf); jesc(jf, S->samp[q]); } fprintf(jf, "]}"); first = false; }
        fflush(stdout);
    }
    if (jf) { fprintf(jf, "\n]}\n"); fclose(jf); }
    rmtree(base_dir.c_str());
    return nviol ? 1 : 0;
}
