// C04: a message at or above the flush level is followed by a flush of every sink of its logger, no other
// message is, and the automatic flush never blocks the pool (even with one worker and a queue of one).
#include "async_common.h"

static void check_flushes(CapSink& s, int lvl, bool exact, const char* when) {
    size_t want = 0;
    for (size_t i = 0; i < s.recs.size(); i++) if (s.recs[i].level >= lvl && s.recs[i].level != ll::level::off) {
        want++;
        bool ok = false; for (size_t f : s.flush_at) ok |= f >= i + 1;
        LMC_CHECK(ok, "%s: message %s (level %d) was not followed by a flush", when, s.recs[i].text.c_str(), s.recs[i].level);
    }
    if (exact) LMC_CHECK(s.flush_at.size() == want, "%s: %zu flushes for %zu messages at or above the flush level", when, s.flush_at.size(), want);
}
template <class Pool, class Sink = CapSink>
static void async(int P, int N, int W, size_t Q, int lv0, int lv1, bool flush_too = false) {
    auto s1 = std::make_shared<Sink>(), s2 = std::make_shared<Sink>();
    {
        auto tp = std::make_shared<Pool>(Q, W);
        std::vector<ll::sink_shr_ptr> v{s1, s2};
        auto lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp);
        lg->set_flush_level(ll::level::warn); lg->set_log_level(ll::level::trace);
        auto body = [&](int p) { for (int i = 0; i < N; i++) lg->log((ll::level::level_enum)((p + i) % 2 ? lv1 : lv0), ll::fmt_string_view(mtext(p, i))); if (flush_too) lg->flush(); };
        std::vector<std::thread> th;
        for (int p = 1; p < P; p++) th.emplace_back(body, p);
        body(0);
        for (auto& t : th) t.join();
    }
    check_once(*s1, P, N, "after shutdown"); check_once(*s2, P, N, "after shutdown");
    check_flushes(*s1, ll::level::warn, !flush_too, "first sink"); check_flushes(*s2, ll::level::warn, !flush_too, "second sink");
    std::string o = show(s1->recs); for (size_t f : s1->flush_at) o += std::to_string(f) + ",";
    lmc::outcome(o);
}
// synchronous: the flush has happened when the call returns
static void sync_levels() {
    auto s1 = std::make_shared<CapSink>(), s2 = std::make_shared<CapSink>();
    static const ll::level::level_enum SL[] = {ll::level::trace, ll::level::critical, ll::level::off};
    ll::logger lg("L", {s1, s2});
    int fl = lmc::choose(7), lv = lmc::choose(6), a = lmc::choose(3), b = lmc::choose(3), gl = lmc::choose(2) ? 3 : 0;
    s1->set_level(SL[a]); s2->set_level(SL[b]);      // a sink that refuses the message is flushed all the same
    lg.set_log_level((ll::level::level_enum)gl); lg.set_flush_level((ll::level::level_enum)fl);
    lg.log((ll::level::level_enum)lv, ll::fmt_string_view("x"));
    size_t want = lv >= fl && lv >= gl ? 1 : 0, got = lv >= gl && lv >= SL[a] ? 1 : 0;
    LMC_CHECK(s1->recs.size() == got && s1->flush_at.size() == want, "flush level %d, message level %d: %zu messages, %zu flushes", fl, lv, s1->recs.size(), s1->flush_at.size());
    LMC_CHECK(s2->flush_at.size() == want, "flush level %d, message level %d: second sink flushed %zu times", fl, lv, s2->flush_at.size());
    if (want) LMC_CHECK(s1->flush_at[0] == got, "flushed before the message was written");
    lmc::outcome(std::to_string(fl) + std::to_string(lv) + std::to_string(a) + std::to_string(b) + std::to_string(gl));
}
template <class Pool>
static void async_levels() {
    auto s1 = std::make_shared<CapSink>(), s2 = std::make_shared<CapSink>();
    int fl = lmc::choose(7), lv = lmc::choose(6), a = lmc::choose(2), b = lmc::choose(2);
    if (a) s1->set_level(ll::level::off);
    if (b) s2->set_level(ll::level::off);
    {
        auto tp = std::make_shared<Pool>(64, 1);
        auto lg = std::make_shared<ll::async_logger>("L", ll::sinks_init_list{s1, s2}, tp);
        lg->set_log_level(ll::level::trace); lg->set_flush_level((ll::level::level_enum)fl);
        lg->log((ll::level::level_enum)lv, ll::fmt_string_view("x"));
    }
    size_t want = lv >= fl ? 1 : 0;
    for (auto s : {s1, s2}) { size_t got = s->get_level() == ll::level::off ? 0 : 1; LMC_CHECK(s->recs.size() == got && s->flush_at.size() == want && (!want || s->flush_at[0] == got), "flush level %d, message level %d: %zu messages, %zu flushes", fl, lv, s->recs.size(), s->flush_at.size()); }
    lmc::outcome(std::to_string(fl) + std::to_string(lv) + std::to_string(a) + std::to_string(b));
}
// any number of sinks, any of which refuse the message: all are flushed, exactly once
static void sinks_table(bool as) {
    int n = 1 + lmc::choose(6), mask = lmc::choose(1 << (n < 5 ? n : 5)), lv = lmc::choose(2) ? 4 : 2, more = lmc::choose(2); std::vector<std::shared_ptr<CapSink>> s; std::vector<ll::sink_shr_ptr> v;
    for (int i = 0; i < n; i++) { s.push_back(std::make_shared<CapSink>()); if (mask >> i & 1) s[i]->set_level(i % 2 ? ll::level::off : ll::level::critical); v.push_back(s[i]); }
    {
        std::shared_ptr<LockPool> tp; std::shared_ptr<ll::logger> lg;
        if (as) { tp = std::make_shared<LockPool>(8, 1); lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp); } else lg = std::make_shared<ll::logger>("L", v.begin(), v.end());
        lg->set_flush_level(ll::level::warn); lg->log((ll::level::level_enum)lv, ll::fmt_string_view("x")); if (more) lg->log(ll::level::error, ll::fmt_string_view("y"));
    }
    size_t want = (lv == 4) + more;
    for (int i = 0; i < n; i++) LMC_CHECK(s[i]->recs.size() == (mask >> i & 1 ? 0u : 1u + more) && s[i]->flush_at.size() == want, "%d sinks, refusing: %x: sink %d got %zu messages and %zu flushes, expected %zu flushes", n, mask, i, s[i]->recs.size(), s[i]->flush_at.size(), want);
    lmc::outcome(std::to_string(n) + std::to_string(want));
}
// two threads, synchronous logger: each finds its own message flushed when the call returns
static void sync_two() {
    auto s = std::make_shared<CapSink>();
    ll::logger lg("L", s); lg.set_flush_level(ll::level::warn);
    auto body = [&](int p) {
        lg.log(ll::level::error, ll::fmt_string_view(mtext(p, 0)));
        std::lock_guard<std::mutex> g(s->m); bool ok = false;
        for (size_t i = 0; i < s->recs.size(); i++) if (s->recs[i].text == mtext(p, 0)) for (size_t f : s->flush_at) ok |= f >= i + 1;
        LMC_CHECK(ok, "message of thread %d not flushed when the call returned", p);
        };
    std::thread t(body, 1); body(0); t.join();
    check_flushes(*s, ll::level::warn, true, "at the end");
    lmc::outcome(show(s->recs));
}
// the level is changed while others log: each message is judged by the old or the new level
static void change(bool as) {
    auto s = std::make_shared<CapSink>();
    {
        std::shared_ptr<LockPool> tp; std::shared_ptr<ll::logger> lg;
        if (as) { tp = std::make_shared<LockPool>(2, 1); lg = std::make_shared<ll::async_logger>("L", s, tp); } else lg = std::make_shared<ll::logger>("L", s);
        lg->set_flush_level(ll::level::error);
        std::thread t([&] { lg->set_flush_level(ll::level::warn); });
        lg->log(ll::level::error, ll::fmt_string_view("p0m0")); lg->log(ll::level::info, ll::fmt_string_view("p0m1")); lg->log(ll::level::warn, ll::fmt_string_view("p0m2"));
        t.join();
    }
    check_flushes(*s, ll::level::error, false, "at the end");
    LMC_CHECK(s->flush_at.size() <= 2 && s->recs.size() == 3, "%zu flushes", s->flush_at.size());
    lmc::outcome(std::to_string(s->flush_at.size()));
}
LMC_SCENARIO(sync_sinks, 0, 0, 0) { sinks_table(false); }
LMC_SCENARIO(lock_sinks, 0, 0, 0) { sinks_table(true); }
LMC_SCENARIO(sync_table, 0, 0, 0) { sync_levels(); }
LMC_SCENARIO(lock_table, 0, 1, 0) { async_levels<LockPool>(); }
LMC_SCENARIO(free_table, 0, 0, 0) { async_levels<FreePool>(); }
LMC_SCENARIO(conc_table, 0, 1, 0) { async_levels<ConcPool>(); }
LMC_SCENARIO(sync_two_threads, 3, 6, 0) { sync_two(); }
LMC_SCENARIO(sync_change, 3, 6, 0) { change(false); }
LMC_SCENARIO(async_change, 2, 4, 0) { change(true); }
LMC_SCENARIO(lock_q1, 2, 3, 0) { async<LockPool>(2, 1, 1, 1, 4, 5); }
LMC_SCENARIO(lock_q1_3m, 2, 4, 0) { async<LockPool>(1, 3, 1, 1, 4, 3); }
LMC_SCENARIO(lock_2w, 2, 3, 0) { async<LockPool>(1, 2, 2, 2, 4, 2); }
LMC_SCENARIO(lock_mixed, 1, 3, 0) { async<LockPool>(2, 2, 1, 1, 2, 4); }
LMC_SCENARIO(lock_and_flush, 1, 3, 0) { async<LockPool>(2, 1, 1, 1, 4, 4, true); }
LMC_SCENARIO(free_two, 1, 2, 0) { async<FreePool>(2, 1, 1, 128, 4, 2); }
LMC_SCENARIO(free_2w, 0, 1, 0) { async<FreePool>(1, 2, 2, 128, 4, 2); }
LMC_SCENARIO(free_and_flush, 0, 1, 0) { async<FreePool>(2, 1, 1, 128, 4, 4, true); }
LMC_SCENARIO(conc_two, 1, 2, 0) { async<ConcPool>(2, 1, 1, 128, 4, 2); }
LMC_SCENARIO(conc_two_2w, 0, 1, 0) { async<ConcPool>(2, 1, 2, 128, 4, 4); }
LMC_SCENARIO(conc_and_flush, 1, 2, 0) { async<ConcPool>(1, 2, 1, 128, 4, 4, true); }
LMC_SCENARIO(lock_slow, 2, 3, 0) { async<LockPool, SlowSink>(2, 1, 1, 1, 4, 5); }
LMC_SCENARIO(lock_slow_3m, 2, 3, 0) { async<LockPool, SlowSink>(1, 3, 1, 1, 4, 2); }
LMC_SCENARIO(free_slow, 1, 2, 0) { async<FreePool, SlowSink>(1, 2, 1, 64, 4, 2); }
LMC_SCENARIO(conc_slow, 1, 2, 0) { async<ConcPool, SlowSink>(1, 2, 2, 64, 4, 2); }
