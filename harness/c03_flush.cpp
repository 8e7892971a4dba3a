// C03: flush() of an asynchronous logger returns, and when it returns every message the calling thread
// logged before has been handed to the sinks and every sink has been flushed after it.
#include "async_common.h"
#include <stdexcept>

// n messages of thread p must be in the sink, followed by a flush
static void barrier(CapSink& s, int p, int n, const char* who) {
    std::lock_guard<std::mutex> g(s.m);
    size_t last = 0;
    for (int i = 0; i < n; i++) {
        size_t k = 0; for (size_t j = 0; j < s.recs.size(); j++) if (s.recs[j].text == mtext(p, i)) { k++; if (j + 1 > last) last = j + 1; }
        LMC_CHECK(k == 1, "%s: message %s delivered %zu times when flush() returned", who, mtext(p, i).c_str(), k);
    }
    bool ok = false; for (size_t f : s.flush_at) ok |= f >= last;
    LMC_CHECK(ok, "%s: the sink was not flushed after the message", who);
}
template <class Pool, class Sink = CapSink>
static void flushers(int P, int W, size_t Q, int N) {
    auto s1 = std::make_shared<Sink>(), s2 = std::make_shared<Sink>();
    {
        auto tp = std::make_shared<Pool>(Q, W);
        std::vector<ll::sink_shr_ptr> v{s1, s2};
        auto lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp);
        auto body = [&](int p) {
            for (int i = 0; i < N; i++) {
                lg->log(ll::level::info, ll::fmt_string_view(mtext(p, i)));
                lg->flush();
                barrier(*s1, p, i + 1, "first sink"); barrier(*s2, p, i + 1, "second sink");
            }
        };
        std::vector<std::thread> th;
        for (int p = 1; p < P; p++) th.emplace_back(body, p);
        body(0);
        for (auto& t : th) t.join();
    }
    check_once(*s1, P, N, "after shutdown");
    lmc::outcome(show(s1->recs) + std::to_string(s1->flush_at.size()));
}
// a flush that takes long while another worker goes on
struct SlowFlush : CapSink { void flush() override { std::this_thread::sleep_for(std::chrono::hours(1)); CapSink::flush(); } };
// the other thread only logs; what it logged before a hand-over counts too
template <class Pool>
static void handover(size_t Q) {
    auto s = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(Q, 1);
        auto lg = std::make_shared<ll::async_logger>("L", s, tp);
        std::thread t([&] { lg->log(ll::level::info, ll::fmt_string_view("p1m0")); lg->log(ll::level::info, ll::fmt_string_view("p1m1")); });
        t.join();
        std::thread u([&] { lg->log(ll::level::info, ll::fmt_string_view("p2m0")); });
        lg->flush();
        barrier(*s, 1, 2, "messages of a thread that has been joined");
        u.join();
    }
    lmc::outcome(show(s->recs));
}
// a sink that fails
struct BadSink : CapSink {
    int bad; explicit BadSink(int b) : bad(b) {}
    void log(const ll::base::log_msg& m) override { if (bad & 1) throw std::runtime_error("bad log"); CapSink::log(m); }
    void flush() override { if (bad & 2) throw std::runtime_error("bad flush"); CapSink::flush(); }
};
template <class Pool>
static void failing(int bad) {
    stderr = fopen("/dev/null", "w");
    auto s1 = std::make_shared<BadSink>(bad); auto s2 = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(64, 1);
        std::vector<ll::sink_shr_ptr> v{s1, s2};
        auto lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp);
        std::thread t([&] { lg->log(ll::level::info, ll::fmt_string_view("p1m0")); lg->flush(); barrier(*s2, 1, 1, "healthy sink"); });
        lg->log(ll::level::info, ll::fmt_string_view("p0m0")); lg->flush();
        barrier(*s2, 0, 1, "healthy sink");
        t.join();
    }
    check_once(*s2, 2, 1, "after shutdown");
    lmc::outcome(show(s2->recs) + std::to_string(s2->flush_at.size()));
}
// the owner gives the pool up at any time: flush() still returns; if the pool was there the barrier holds
template <class Pool>
static void shutdown(size_t Q) {
    stderr = fopen("/dev/null", "w");
    auto s = std::make_shared<CapSink>();
    auto tp = std::make_shared<Pool>(Q, 1);
    std::weak_ptr<ll::base::thread_pool> wp = tp;
    auto lg = std::make_shared<ll::async_logger>("L", s, tp);
    std::thread t([&] {
        lg->log(ll::level::info, ll::fmt_string_view("p0m0"));
        lg->flush();
        if (!wp.expired()) barrier(*s, 0, 1, "pool still there");
    });
    tp.reset();
    t.join();
    lmc::outcome(show(s->recs) + std::to_string(s->flush_at.size()));
}
// flush_all() and the flush of a logger that shares the pool
static std::vector<std::shared_ptr<CapSink>> g_s;
struct FwdSink : ll::sinks::sink {
    std::shared_ptr<CapSink> s; explicit FwdSink(int i) : s(g_s[i]) {}
    void log(const ll::base::log_msg& m) override { s->log(m); }
    void flush() override { s->flush(); }
    void set_pattern(const std::string&) override {}
    void set_formatter(ll::formatter_uni_ptr) override {}
};
template <class Pool>
static void all() {
    ll::remove_all();
    g_s = {std::make_shared<CapSink>(), std::make_shared<CapSink>(), std::make_shared<CapSink>()};
    ll::initialize_thread_pool<Pool>(64, 1);
    auto a = ll::async_factory_template<Pool>::template create<FwdSink>("A", 0);
    auto b = ll::async_factory_template<Pool>::template create<FwdSink>("B", 1);
    auto c = ll::create<FwdSink>("C", 2);
    std::thread t([&] { b->log(ll::level::info, ll::fmt_string_view("p1m0")); ll::flush_all(); barrier(*g_s[1], 1, 1, "B, thread 1"); });
    a->log(ll::level::info, ll::fmt_string_view("p0m0")); c->log(ll::level::info, ll::fmt_string_view("p0m0"));
    ll::flush_all();
    barrier(*g_s[0], 0, 1, "A"); barrier(*g_s[2], 0, 1, "C");
    t.join();
    lmc::outcome(std::to_string(g_s[0]->flush_at.size()));
    a.reset(); b.reset(); c.reset();
    ll::close();
}
// the levels of the sinks are changed meanwhile: what a sink has received is still flushed
template <class Pool>
static void quiet(int W) {
    static const ll::level::level_enum A[] = {ll::level::off, ll::level::critical, ll::level::trace};
    auto s1 = std::make_shared<CapSink>(), s2 = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(64, W);
        std::vector<ll::sink_shr_ptr> v{s1, s2};
        auto lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp);
        auto to = A[lmc::choose(3)]; int who = lmc::choose(3);
        lg->log(ll::level::info, ll::fmt_string_view("p0m0"));
        lg->flush(); barrier(*s1, 0, 1, "first sink"); barrier(*s2, 0, 1, "second sink");
        lg->log(ll::level::critical, ll::fmt_string_view("p0m1"));
        if (who != 1) s1->set_level(to);
        if (who != 0) s2->set_level(to);
        lg->set_log_level(to);
        lg->flush();
        for (auto& s : {s1, s2}) {
            std::lock_guard<std::mutex> g(s->m);
            LMC_CHECK(s->flush_at.size() == 2 && s->flush_at[1] == s->recs.size(), "a sink was not flushed after what it has received: %zu flushes, %zu messages", s->flush_at.size(), s->recs.size());
        }
    }
    lmc::outcome(show(s1->recs) + "/" + show(s2->recs));
}
LMC_SCENARIO(lock_1t2m, 2, 4, 0) { flushers<LockPool>(1, 1, 1, 2); }
LMC_SCENARIO(lock_bad_log, 1, 2, 0) { failing<LockPool>(1); }
LMC_SCENARIO(lock_bad_flush, 1, 2, 0) { failing<LockPool>(2); }
LMC_SCENARIO(lock_shutdown, 3, 5, 0) { shutdown<LockPool>(1); }
LMC_SCENARIO(lock_all, 1, 2, 0) { all<LockPool>(); }
LMC_SCENARIO(lock_levels, 1, 3, 0) { quiet<LockPool>(1); }
LMC_SCENARIO(free_levels, 1, 2, 0) { quiet<FreePool>(1); }
LMC_SCENARIO(conc_levels, 1, 2, 0) { quiet<ConcPool>(1); }
LMC_SCENARIO(free_2t, 1, 2, 0) { flushers<FreePool>(2, 1, 128, 1); }
LMC_SCENARIO(free_bad, 0, 1, 0) { failing<FreePool>(3); }
LMC_SCENARIO(free_shutdown, 1, 3, 0) { shutdown<FreePool>(128); }
LMC_SCENARIO(free_all, 0, 1, 0) { all<FreePool>(); }
LMC_SCENARIO(conc_2t, 1, 2, 0) { flushers<ConcPool>(2, 1, 128, 1); }
LMC_SCENARIO(conc_2t_2w, 1, 2, 0) { flushers<ConcPool>(2, 2, 128, 1); }
LMC_SCENARIO(conc_1t_2w, 1, 2, 0) { flushers<ConcPool>(1, 2, 128, 2); }
LMC_SCENARIO(conc_bad, 0, 1, 0) { failing<ConcPool>(3); }
LMC_SCENARIO(conc_shutdown, 1, 3, 0) { shutdown<ConcPool>(128); }
LMC_SCENARIO(conc_all, 0, 1, 0) { all<ConcPool>(); }
LMC_SCENARIO(lock_2t, 1, 3, 0) { flushers<LockPool>(2, 1, 1, 1); }
LMC_SCENARIO(lock_handover, 1, 3, 0) { handover<LockPool>(2); }
LMC_SCENARIO(free_1t1m, 2, 4, 0) { flushers<FreePool>(1, 1, 64, 1); }
LMC_SCENARIO(conc_1t1m, 2, 4, 0) { flushers<ConcPool>(1, 1, 64, 1); }
LMC_SCENARIO(conc_1t1m_2w, 1, 2, 0) { flushers<ConcPool>(1, 2, 64, 1); }
// however long the sinks take
LMC_SCENARIO(lock_slow, 2, 4, 0) { flushers<LockPool, SlowSink>(2, 1, 1, 1); }
LMC_SCENARIO(free_slow, 1, 2, 0) { flushers<FreePool, SlowSink>(1, 1, 64, 2); }
LMC_SCENARIO(conc_slow, 1, 2, 0) { flushers<ConcPool, SlowSink>(1, 2, 64, 2); }
LMC_SCENARIO(conc_slow_2t, 1, 2, 0) { flushers<ConcPool, SlowFlush>(2, 2, 64, 1); }
LMC_SCENARIO(conc_slow_3t, 0, 1, 0) { flushers<ConcPool, SlowSink>(3, 2, 64, 1); }
