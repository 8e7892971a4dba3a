// C06: the bounded blocking queue behaves like an atomic bounded FIFO under every schedule.
#include "lmc.h"
#include "lin.h"
#include "base/block_queue.h"
#include <thread>
#include <vector>
#include <string>
#include <deque>
#include <memory>
using learnlog::base::block_queue;

struct Val { std::unique_ptr<int> p; Val() {} explicit Val(int v) : p(new int(v)) {} int get() const { return p ? *p : -1; } };
typedef block_queue<Val> BQ;
enum { ENQ, NOWAIT, ROOM, DEQ, DEQFOR, SIZE, OVER, RESET_OVER, DISC, RESET_DISC, NAP, CLOCK };
static const char* names[] = {"enqueue", "enqueue_nowait", "enqueue_if_have_room", "dequeue", "dequeue_for", "size", "override_count", "reset_override_count", "discard_count", "reset_discard_count", "nap", "clock"};
struct QModel {
    size_t cap; std::deque<int> q; long over = 0, disc = 0;
    explicit QModel(size_t c) : cap(c) {}
    bool apply(const LinOp& o) {
        switch (o.kind) {
        case ENQ: if (q.size() >= cap) return false; q.push_back(o.a); return true;
        case NOWAIT: q.push_back(o.a); if (q.size() > cap) { q.pop_front(); over++; } return true;
        case ROOM: if (q.size() < cap) q.push_back(o.a); else disc++; return true;
        case DEQ: if (q.empty() || q.front() != o.res) return false; q.pop_front(); return true;
        case DEQFOR: if (o.res == -1) return q.empty(); if (q.empty() || q.front() != o.res) return false; q.pop_front(); return true;
        case SIZE: return (long)q.size() == o.res;
        case OVER: return over == o.res;
        case RESET_OVER: over = 0; return true;
        case DISC: return disc == o.res;
        case RESET_DISC: disc = 0; return true;
        }
        return false;
    }
};
static bool exact = true;      // virtual time passes only while every thread waits
struct Rec {       // one per thread
    std::vector<LinOp> v; BQ& q; int tid;
    Rec(BQ& q_, int t) : q(q_), tid(t) { v.reserve(64); }
    void step(int kind, int a) { if (kind == CLOCK) lmc::set_clock(a * 1000000000ll); else if (kind == NAP) std::this_thread::sleep_for(std::chrono::milliseconds(a)); else run(kind, a); }
    void run(int kind, int a = 0) {
        LinOp o; o.kind = kind; o.a = a; o.tid = tid; uint64_t call = 0; v.push_back(o); LinOp& r = v.back();
        lmc::stamp_call(&r.call); (void)call;
        switch (kind) {
        case ENQ: q.enqueue(Val(a)); break;
        case NOWAIT: q.enqueue_nowait(Val(a)); break;
        case ROOM: q.enqueue_if_have_room(Val(a)); break;
        case DEQ: { Val x; q.dequeue(x); r.res = x.get(); break; }
        case DEQFOR: { Val x(-7); uint64_t t0 = lmc::now_ms(); std::chrono::milliseconds d(a); if (a > 2000000000) d = a & 1 ? std::chrono::milliseconds::max() : std::chrono::milliseconds::max() / 2; else if (a < -2000000000) d = a & 1 ? std::chrono::milliseconds(-9300000000000) : std::chrono::milliseconds::min(); bool ok = q.dequeue_for(x, d); r.res = ok ? x.get() : -1;
            if (exact && a <= 2000000000) LMC_CHECK(lmc::now_ms() <= t0 + (a > 0 ? a : 0) + 1, "dequeue_for(%d ms) returned after %d ms", a, (int)(lmc::now_ms() - t0));
            if (!ok) { LMC_CHECK(lmc::now_ms() >= t0 + (a > 2000000000 ? 1000000000000ull : a > 0 ? a : 0), "dequeue_for(%d ms) gave up after %d ms", a, (int)(lmc::now_ms() - t0)); LMC_CHECK(x.get() == -7, "dequeue_for() failed but changed its argument"); }
            break; }
        case SIZE: r.res = (long)q.size(); break;
        case OVER: r.res = (long)q.get_override_count(); break;
        case RESET_OVER: q.reset_override_count(); break;
        case DISC: r.res = (long)q.get_discard_count(); break;
        case RESET_DISC: q.reset_discard_count(); break;
        }
        r.ret = lmc::stamp_ret();
    }
};
struct Step { int kind, a; };
// Each inner list is run by a thread of its own (the first one by the body); then the queue is drained and compared.
static void run(size_t cap, std::vector<std::vector<Step>> prog) {
    BQ q(cap);
    std::vector<std::unique_ptr<Rec>> rec;
    for (size_t i = 0; i < prog.size(); i++) rec.emplace_back(new Rec(q, (int)i));
    std::vector<std::thread> th;
    for (size_t i = 1; i < prog.size(); i++) { Rec* r = rec[i].get(); auto* p = &prog[i]; th.emplace_back([r, p] { for (auto& s : *p) r->step(s.kind, s.a); }); }
    for (auto& s : prog[0]) rec[0]->step(s.kind, s.a);
    for (auto& t : th) t.join();
    Rec fin(q, 99);
    fin.run(SIZE); fin.run(OVER); fin.run(DISC);
    for (int n = (int)fin.v[0].res; n > 0 && n < 10; n--) fin.run(DEQ);
    fin.run(SIZE);
    LMC_CHECK(fin.v.back().res == 0, "the queue is not empty after removing %ld items", fin.v[0].res);
    std::vector<LinOp> h; std::string s;
    for (auto& r : rec) h.insert(h.end(), r->v.begin(), r->v.end());
    h.insert(h.end(), fin.v.begin(), fin.v.end());
    for (auto& o : h) { s += (o.tid == 99 ? std::string("end") : "T" + std::to_string(o.tid)) + ":" + names[o.kind] + "(" + std::to_string(o.a) + ")=" + std::to_string(o.res) + " "; }
    LMC_CHECK(linearizable(h, QModel(cap)), "no order of the operations explains their results (capacity %zu): %s", cap, s.c_str());
    lmc::outcome(s);
}
typedef std::vector<std::vector<Step>> P;
LMC_SCENARIO(two_producers_one_consumer, 3, 5, 0) { run(1, P{{{DEQ, 0}, {DEQ, 0}, {DEQ, 0}}, {{ENQ, 1}, {ENQ, 2}}, {{ENQ, 11}}}); }
LMC_SCENARIO(two_consumers, 3, 5, 0) { run(1, P{{{ENQ, 1}, {ENQ, 2}, {ENQ, 3}}, {{DEQ, 0}}, {{DEQ, 0}}}); }
LMC_SCENARIO(two_by_two, 2, 4, 0) { run(1, P{{{ENQ, 1}, {ENQ, 2}}, {{ENQ, 11}}, {{DEQ, 0}}, {{DEQ, 0}, {DEQ, 0}}}); }
LMC_SCENARIO(two_by_two_cap2, 2, 3, 0) { run(2, P{{{ENQ, 1}, {ENQ, 2}, {ENQ, 3}}, {{ENQ, 11}}, {{DEQ, 0}}, {{DEQ, 0}}}); }
LMC_SCENARIO(three_producers_blocked, 2, 3, 0) { run(1, P{{{DEQ, 0}, {DEQ, 0}, {DEQ, 0}}, {{ENQ, 1}}, {{ENQ, 2}}, {{ENQ, 3}}}); }
LMC_SCENARIO(spurious_wakeups, 2, 4, lmc::F_SPURIOUS) { run(1, P{{{ENQ, 1}, {ENQ, 2}}, {{DEQ, 0}}, {{DEQ, 0}}}); }
LMC_SCENARIO(overwrite, 3, 6, 0) { run(1, P{{{NOWAIT, 1}, {OVER, 0}, {SIZE, 0}}, {{NOWAIT, 2}, {NOWAIT, 3}}, {{DEQFOR, 5}}}); }
LMC_SCENARIO(overwrite_cap2, 2, 4, 0) { run(2, P{{{NOWAIT, 1}, {NOWAIT, 2}, {RESET_OVER, 0}}, {{NOWAIT, 3}, {OVER, 0}}, {{SIZE, 0}, {DEQFOR, 5}}}); }
LMC_SCENARIO(discard, 3, 6, 0) { run(1, P{{{ROOM, 1}, {ROOM, 2}}, {{ROOM, 3}}, {{DEQFOR, 5}, {DEQFOR, 5}}}); }
LMC_SCENARIO(discard_two, 3, 6, 0) { run(2, P{{{ROOM, 1}, {ROOM, 2}, {SIZE, 0}}, {{ROOM, 4}}, {{ROOM, 5}, {DEQFOR, 2}}}); }
LMC_SCENARIO(counters, 3, 6, 0) { run(1, P{{{ROOM, 1}, {ROOM, 2}, {NOWAIT, 3}, {DISC, 0}, {RESET_OVER, 0}, {OVER, 0}}, {{DISC, 0}, {RESET_DISC, 0}, {OVER, 0}}}); }
// one thread: every sequence of operations
static void alone(size_t cap, int depth) {
    std::vector<Step> p; size_t n = 0; int v = 0;
    for (int i = 0; i < depth; i++) { static const int K[] = {NOWAIT, ROOM, ENQ, DEQFOR, DEQ, OVER, RESET_OVER, DISC, RESET_DISC}; int k = K[lmc::choose(9)]; if ((k == ENQ && n >= cap) || (k == DEQ && n == 0)) return; if ((k == NOWAIT || k == ROOM || k == ENQ) && n < cap) n++; if ((k == DEQ || k == DEQFOR) && n > 0) n--; p.push_back({k, k == DEQFOR ? 0 : ++v}); if (k == NOWAIT || k == ROOM || k == RESET_OVER || k == RESET_DISC) { p.push_back({OVER, 0}); p.push_back({DISC, 0}); p.push_back({SIZE, 0}); } }
    run(cap, P{p});
}
LMC_SCENARIO(alone_1, 0, 0, lmc::F_SEQ) { alone(1, 4); }
LMC_SCENARIO(alone_2, 0, 0, lmc::F_SEQ) { alone(2, 4); }
LMC_SCENARIO(timed, 3, 5, lmc::F_TIMEOUTS) { exact = false; run(1, P{{{ENQ, 1}, {ENQ, 2}}, {{DEQFOR, 5}, {DEQ, 0}}}); }
LMC_SCENARIO(timed_two, 2, 4, lmc::F_TIMEOUTS) { exact = false; run(1, P{{{ENQ, 1}, {NOWAIT, 2}}, {{DEQFOR, 5}}, {{DEQFOR, 3}, {SIZE, 0}}}); }
// waiting has no limit, and a timed removal waits its whole time
LMC_SCENARIO(long_waits, 3, 5, 0) { run(1, P{{{NAP, 3600000}, {DEQ, 0}, {NAP, 3600000}, {DEQ, 0}, {DEQ, 0}}, {{ENQ, 1}, {ENQ, 2}}, {{ENQ, 3}}}); }
LMC_SCENARIO(long_waits_out, 3, 5, 0) { run(1, P{{{NAP, 3600000}, {ENQ, 1}, {NAP, 3600000}, {ENQ, 2}}, {{DEQ, 0}}, {{DEQ, 0}}}); }
LMC_SCENARIO(long_timed, 3, 5, 0) { run(1, P{{{NAP, 3600000}, {NOWAIT, 1}, {NAP, 10}, {NOWAIT, 2}}, {{DEQFOR, 3600005}}, {{DEQFOR, 3600020}}}); }
// a timed removal woken for an item another thread takes first waits only for the rest of its time
LMC_SCENARIO(stolen, 2, 4, 0) { run(2, P{{{NAP, 10}, {NOWAIT, 1}, {DEQFOR, 0}, {NAP, 5}, {ENQ, 2}, {DEQFOR, 0}}, {{DEQFOR, 20}}}); }
LMC_SCENARIO(stolen_two, 2, 4, 0) { run(2, P{{{NAP, 10}, {NOWAIT, 1}, {DEQFOR, 0}, {NAP, 30}}, {{DEQFOR, 20}}, {{NAP, 15}, {DEQFOR, 20}}}); }
// the system's clock is set while threads wait, forwards or back: nobody waits longer or shorter for that
LMC_SCENARIO(clock_set, 2, 4, 0) { static const int J[] = {3600, -3600, 1000000000, -1000000000}; int j = J[lmc::choose(4)]; bool put = lmc::choose(2); std::vector<Step> a{{NAP, 5}, {CLOCK, j}, {NAP, 5}}; if (put) a.push_back({NOWAIT, 1}); run(1, P{a, {{DEQFOR, 20}}, {{NAP, 7}, {DEQFOR, 20}}}); }
LMC_SCENARIO(clock_set_spurious, 2, 4, lmc::F_SPURIOUS) { int j = lmc::choose(2) ? 3600 : -3600; run(1, P{{{NAP, 5}, {CLOCK, j}}, {{DEQFOR, 20}}}); }
LMC_SCENARIO(clock_set_waits, 2, 4, 0) { int j = lmc::choose(2) ? 3600 : -3600; run(1, P{{{NAP, 5}, {CLOCK, j}, {NAP, 5}, {DEQ, 0}, {DEQ, 0}}, {{ENQ, 1}}, {{ENQ, 2}}}); }
// timeouts beyond what the clock can count, in either direction
LMC_SCENARIO(longest_timed, 3, 5, 0) { int k = lmc::choose(2); run(1, P{{{NAP, 3600000}, {NOWAIT, 1}, {NAP, 10}, {NOWAIT, 2}}, {{DEQFOR, 2147483646 + k}}, {{DEQFOR, 3600020}}}); }
LMC_SCENARIO(negative_timed, 3, 5, 0) { static const int D[] = {0, -1, -5, -2147483647, -2147483646}; int d = D[lmc::choose(5)]; run(1, P{{{NOWAIT, 1}, {NAP, 10}, {NOWAIT, 2}}, {{DEQFOR, d}, {DEQFOR, d}}, {{NAP, 5}, {DEQFOR, d}, {DEQFOR, 50}}}); }
LMC_SCENARIO(negative_empty, 3, 5, 0) { static const int D[] = {0, -1, -2147483647, -2147483646}; int d = D[lmc::choose(4)]; run(1, P{{{DEQFOR, d}, {NAP, 5}, {NOWAIT, 1}, {DEQFOR, d}, {DEQFOR, d}}}); }
LMC_SCENARIO(long_timed_spurious, 2, 4, lmc::F_SPURIOUS) { run(1, P{{{NAP, 3600000}, {NOWAIT, 1}, {NAP, 10}, {NOWAIT, 2}}, {{DEQFOR, 3600005}}, {{DEQFOR, 3600020}}}); }
LMC_SCENARIO(mixed, 2, 4, 0) { run(1, P{{{ENQ, 1}, {ROOM, 2}}, {{NOWAIT, 3}, {SIZE, 0}}, {{DEQFOR, 4}, {DEQFOR, 4}}}); }
// Every kind of operation against threads that already wait on the other side: each waiting thread must be woken.
static const int PUT[] = {ENQ, NOWAIT, ROOM}, GET[] = {DEQ, DEQFOR};
static void waiting(int n, bool producers) {
    size_t cap = producers ? 1 + lmc::choose(n, "capacity") : n; std::vector<std::vector<Step>> p(n + 1); BQ q(cap); bool sleep = lmc::choose(2, "the others wait already");
    std::vector<std::unique_ptr<Rec>> rec; for (int i = 0; i <= n; i++) rec.emplace_back(new Rec(q, i));
    if (producers) for (size_t i = 0; i < cap; i++) rec[0]->run(ENQ, 1 + i);
    for (int i = 1; i <= n; i++) if (producers) p[i].push_back({ENQ, 10 * i}); else p[i].push_back({GET[lmc::choose(2)], 1000});
    for (size_t i = 0; i < n + (producers ? cap : 0); i++) if (producers) p[0].push_back({GET[lmc::choose(2)], 1000}); else p[0].push_back({PUT[lmc::choose(3)], (int)i + 1});
    std::vector<std::thread> th; for (int i = 1; i <= n; i++) { Rec* r = rec[i].get(); auto* s = &p[i]; th.emplace_back([r, s] { for (auto& x : *s) r->run(x.kind, x.a); }); }
    if (sleep) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    for (auto& x : p[0]) rec[0]->run(x.kind, x.a);
    for (auto& t : th) t.join();
    std::vector<LinOp> h; std::string s; for (auto& r : rec) h.insert(h.end(), r->v.begin(), r->v.end());
    for (auto& o : h) { s += "T" + std::to_string(o.tid) + ":" + names[o.kind] + "(" + std::to_string(o.a) + ")=" + std::to_string(o.res) + " "; LMC_CHECK(o.kind != DEQFOR || o.res != -1, "an item was there, but dequeue_for() timed out: %s", s.c_str()); }
    LMC_CHECK(q.size() == 0, "%zu items left: %s", q.size(), s.c_str()); LMC_CHECK(linearizable(h, QModel(cap)), "no order of the operations explains their results (capacity %zu): %s", cap, s.c_str());
    lmc::outcome(s);
}
LMC_SCENARIO(waiting_producers, 1, 3, 0) { waiting(2, true); }
LMC_SCENARIO(waiting_consumers, 1, 3, 0) { waiting(2, false); }
LMC_SCENARIO(waiting_consumers_spurious, 1, 2, lmc::F_SPURIOUS) { waiting(2, false); }
LMC_SCENARIO(waiting_producers_3, -1, 2, 0) { waiting(3, true); }
LMC_SCENARIO(waiting_consumers_3, -1, 2, 0) { waiting(3, false); }
