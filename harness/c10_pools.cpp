// C10: thread pools may coexist, follow each other and be replaced while in use: every message goes to the workers of its own
// logger's pool exactly once, or is refused with a report once that pool is gone.
#include "async_common.h"
#include <unistd.h>
static std::string errpath() { return std::string(lmc::scratch()) + "/err"; }
static void open_err() { stderr = fopen(errpath().c_str(), "a"); dup2(fileno(stderr), 2); } // whichever way a report takes
static int reports() { fflush(stderr); FILE* f = fopen(errpath().c_str(), "r"); std::string t; char b[1000]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); int n = 0; size_t p = 0; while ((p = t.find("[*** EXCEPTION #", p)) != std::string::npos) { n++; p++; } return n; }
static void put(ll::logger& g, int p, int i) { g.log(ll::level::info, ll::fmt_string_view(mtext(p, i))); }
typedef std::shared_ptr<CapSink> S;
// two pools of one type at a time, used in turn by P threads
template <class Pool> static void coexist(int P, int W, int N) {
    S a = std::make_shared<CapSink>(), b = std::make_shared<CapSink>(); {
        auto t1 = std::make_shared<Pool>(64, W), t2 = std::make_shared<Pool>(64, W); auto g = std::make_shared<ll::async_logger>("A", a, t1), h = std::make_shared<ll::async_logger>("B", b, t2); std::vector<std::thread> th;
        for (int p = 1; p < P; p++) th.emplace_back([&, p] { for (int i = 0; i < N; i++) { put(*h, p, i); put(*g, p, i); } }); for (int i = 0; i < N; i++) { put(*g, 0, i); put(*h, 0, i); } for (auto& t : th) t.join();
        int k = lmc::choose(3); if (k == 1) { g.reset(); t1.reset(); check_once(*a, P, N, "after the first pool has ended"); put(*h, P, 0); } if (k == 2) { h.reset(); t2.reset(); check_once(*b, P, N, "after the second pool has ended"); put(*g, P, 0); }
        S& more = k == 1 ? b : a; g.reset(); h.reset(); t1.reset(); t2.reset(); if (k) { LMC_CHECK(more->count(mtext(P, 0)) == 1, "a message after the other pool had ended: %s", show(more->recs).c_str()); more->recs.pop_back(); } }
    check_once(*a, P, N, "first pool"); check_once(*b, P, N, "second pool"); if (W == 1) { check_order(*a, P, "first pool"); check_order(*b, P, "second pool"); } lmc::outcome(show(a->recs) + show(b->recs));
}
LMC_SCENARIO(two_lock, 1, 2, 0) { coexist<LockPool>(1, 1, 2); }
LMC_SCENARIO(two_free, 1, 2, 0) { coexist<FreePool>(1, 1, 2); }
LMC_SCENARIO(two_conc, 1, 2, 0) { coexist<ConcPool>(1, 1, 2); }
LMC_SCENARIO(two_conc_2w, 0, 1, 0) { coexist<ConcPool>(1, 2, 1); }
LMC_SCENARIO(two_free_2w, 0, 1, 0) { coexist<FreePool>(1, 2, 1); }
LMC_SCENARIO(two_lock_2t, 0, 1, 0) { coexist<LockPool>(2, 1, 1); }
LMC_SCENARIO(two_conc_2t, 0, 1, 0) { coexist<ConcPool>(2, 1, 1); }
// one pool after the other (possibly at the same place in memory), same logging threads
template <class Pool> static void follow(int n, int W) {
    for (int r = 0; r < n; r++) { S a = std::make_shared<CapSink>(); { auto t = std::make_shared<Pool>(64, W); auto g = std::make_shared<ll::async_logger>("A", a, t); std::thread th([&] { put(*g, 1, 0); }); put(*g, 0, 0); th.join(); } check_once(*a, 2, 1, "pool of this round"); } lmc::outcome("ok");
}
LMC_SCENARIO(follow_lock, 1, 2, 0) { follow<LockPool>(2, 1); }
LMC_SCENARIO(follow_free, 1, 1, 0) { follow<FreePool>(2, 1); }
LMC_SCENARIO(follow_conc, 1, 1, 0) { follow<ConcPool>(2, 1); }
LMC_SCENARIO(follow_conc_many, 0, 0, 0) { follow<ConcPool>(4, 1); }
// a sink of one pool's worker logs through another pool, of each type
struct Relay : CapSink { std::shared_ptr<ll::async_logger> to; void log(const ll::base::log_msg& m) override { CapSink::log(m); if (to) to->log(ll::level::info, ll::fmt_string_view(m.msg.data(), m.msg.size())); } };
template <class A, class B> static void relay() { auto a = std::make_shared<Relay>(); S b = std::make_shared<CapSink>(); { auto t2 = std::make_shared<B>(64, 1); a->to = std::make_shared<ll::async_logger>("B", b, t2); { auto t1 = std::make_shared<A>(64, 1); auto g = std::make_shared<ll::async_logger>("A", std::static_pointer_cast<ll::sinks::sink>(a), t1); put(*g, 0, 0); put(*g, 0, 1); } a->to.reset(); } check_once(*a, 1, 2, "first pool"); check_once(*b, 1, 2, "second pool"); check_order(*b, 1, "second pool"); lmc::outcome("ok"); }
LMC_SCENARIO(relay_lock, 1, 2, 0) { relay<LockPool, LockPool>(); }
LMC_SCENARIO(relay_free, 1, 2, 0) { relay<FreePool, FreePool>(); }
LMC_SCENARIO(relay_conc, 1, 2, 0) { relay<ConcPool, ConcPool>(); }
LMC_SCENARIO(relay_mixed, 1, 1, 0) { if (lmc::choose(2)) relay<LockPool, ConcPool>(); else relay<ConcPool, FreePool>(); }
// the registered pool is replaced (or given up) while another thread logs: delivered exactly once or refused with one report
template <class Pool> static void replace(int how, int N) {
    open_err(); S a = std::make_shared<CapSink>(); ll::initialize_thread_pool<Pool>(2 + 62 * (how & 1), 1); auto g = std::make_shared<ll::async_logger>("A", a, ll::get_thread_pool()); ll::register_logger(g);
    std::thread t([&] { for (int i = 0; i < N; i++) put(*g, 0, i); }); if (how < 2) ll::initialize_thread_pool<Pool>(64, 1); else if (how < 4) ll::register_thread_pool(nullptr); else ll::close(); t.join(); auto now = ll::get_thread_pool(); now.reset();
    LMC_CHECK(ll::get_logger("A") == nullptr, "the logger of the old pool is still registered"); int gone = reports(); LMC_CHECK((int)a->recs.size() + gone == N, "%zu messages delivered, %d refused, %d logged", a->recs.size(), gone, N); check_order(*a, 1, "old pool"); for (int i = 0; i < N; i++) LMC_CHECK(a->count(mtext(0, i)) <= 1, "delivered twice"); for (size_t i = 0; i < a->recs.size(); i++) LMC_CHECK(a->recs[i].text == mtext(0, (int)i), "a message was refused before one that was accepted: %s", show(a->recs).c_str());
    if (how < 2) { S b = std::make_shared<CapSink>(); auto h = std::make_shared<ll::async_logger>("A", b, ll::get_thread_pool()); ll::register_logger(h); put(*h, 0, 0); h->flush(); check_once(*b, 1, 1, "new pool"); } g.reset(); ll::close(); lmc::outcome(std::to_string(a->recs.size()));
}
LMC_SCENARIO(replace_lock, 1, 2, 0) { replace<LockPool>(lmc::choose(3) * 2, 2); }
LMC_SCENARIO(replace_free, 1, 2, 0) { replace<FreePool>(lmc::choose(3) * 2 + 1, 2); }
LMC_SCENARIO(replace_conc, 1, 2, 0) { replace<ConcPool>(lmc::choose(3) * 2 + 1, 2); }
// two threads make asynchronous loggers through the factories at the same time: both loggers work
struct Cap2 : CapSink {};
template <class F, class G> static void factories(bool same) {
    open_err(); ll::initialize_thread_pool<LockPool>(64, 1); ll::async_logger_shr_ptr g, h; std::thread t([&] { h = G::template create<Cap2>("B"); }); g = F::template create<CapSink>("A"); t.join();
    S a = std::static_pointer_cast<CapSink>(g->sinks()[0]); std::shared_ptr<Cap2> b = std::static_pointer_cast<Cap2>(h->sinks()[0]); put(*g, 0, 0); put(*h, 1, 0); int gone = reports(); ll::logger_shr_ptr ra = ll::get_logger("A"), rb = ll::get_logger("B");
    if (same) LMC_CHECK(ra == g && rb == h && !gone, "two loggers of one pool type were created at the same time: %s registered, %d of 2 messages refused", ra && rb ? "both" : ra || rb ? "one" : "none", gone); else LMC_CHECK(!!ra + !!rb == 1 && gone == 1 && (ra ? a : std::static_pointer_cast<CapSink>(b)), "pools of two types: %d loggers registered, %d of 2 messages refused", !!ra + !!rb, gone);
    if (ra) { ra.reset(); rb.reset(); } rb.reset(); g.reset(); h.reset(); ll::close(); LMC_CHECK(a->recs.size() + b->recs.size() + gone == 2, "delivered %zu and %zu", a->recs.size(), b->recs.size()); lmc::outcome(std::to_string(a->recs.size()) + std::to_string(b->recs.size()));
}
LMC_SCENARIO(create_same_pool, 2, 3, 0) { factories<ll::async_factory_lock, ll::async_factory_lock>(true); }
LMC_SCENARIO(create_new_pool, 1, 2, 0) { factories<ll::async_factory_lockfree_concurrent, ll::async_factory_lockfree_concurrent>(true); }
LMC_SCENARIO(create_new_free_pool, 1, 2, 0) { factories<ll::async_factory_lockfree, ll::async_factory_lockfree>(true); }
LMC_SCENARIO(create_two_types, 1, 2, 0) { factories<ll::async_factory_lockfree, ll::async_factory_lockfree_concurrent>(false); }
