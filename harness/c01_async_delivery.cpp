// C01: every message accepted by an asynchronous logger reaches each of its sinks exactly once,
// whatever the schedule, including shutdown.
#include "async_common.h"
#include "sinks/null_sink.h"

struct Cfg { int P, N, W; size_t Q; bool self; };

// P producer threads log N messages each through one asynchronous logger; then the pool is destroyed.
template <class Pool, class Sink = CapSink>
static void deliver(Cfg c) {
    auto sink = std::make_shared<Sink>();
    {
        auto tp = std::make_shared<Pool>(c.Q, c.W);
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        std::vector<std::thread> th;
        for (int p = c.self ? 1 : 0; p < c.P; p++) th.emplace_back([=] { for (int i = 0; i < c.N; i++) lg->log(ll::level::info, ll::fmt_string_view(mtext(p, i))); });
        if (c.self) for (int i = 0; i < c.N; i++) lg->log(ll::level::info, ll::fmt_string_view(mtext(0, i)));
        for (auto& t : th) t.join();
        lg.reset();
        tp.reset();
    }
    check_once(*sink, c.P, c.N, "after shutdown");
    lmc::outcome(show(sink->recs));
}
// The owner gives the pool up while another thread is still logging.  A message may be refused only
// when the pool no longer exists by the time the call returns.
template <class Pool>
static void shutdown_race(int N, int W, size_t Q) {
    auto sink = std::make_shared<CapSink>();
    std::vector<char> gone(N, 0);
    {
        auto tp = std::make_shared<Pool>(Q, W);
        std::weak_ptr<ll::base::thread_pool> wp = tp;
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        std::thread t([&] { for (int i = 0; i < N; i++) { lg->log(ll::level::info, ll::fmt_string_view(mtext(0, i))); gone[i] = wp.expired(); } });
        tp.reset();
        t.join();
        LMC_CHECK(wp.expired(), "the pool outlives its last owner");
    }
    std::string s;
    for (int i = 0; i < N; i++) {
        size_t n = sink->count(mtext(0, i)); s += std::to_string(n);
        LMC_CHECK(n <= 1, "message %d delivered %zu times", i, n);
        LMC_CHECK(n == 1 || gone[i], "message %d was logged while the pool existed but never delivered", i);
    }
    lmc::outcome(s);
}
// two loggers with sinks of their own on one pool, and a logger with two sinks, one of which filters
template <class Pool>
static void two_loggers(int W) {
    auto s1 = std::make_shared<CapSink>(), s2 = std::make_shared<CapSink>(), s3 = std::make_shared<CapSink>();
    s3->set_level(ll::level::warn);
    {
        auto tp = std::make_shared<Pool>(128, W);
        std::vector<ll::sink_shr_ptr> v{s2, s3};
        auto a = std::make_shared<ll::async_logger>("A", s1, tp), b = std::make_shared<ll::async_logger>("B", v.begin(), v.end(), tp);
        std::thread t([=] { b->log(ll::level::info, ll::fmt_string_view("p1m0")); });
        a->log(ll::level::info, ll::fmt_string_view("p0m0"));
        b->log(ll::level::error, ll::fmt_string_view("p0m1"));
        t.join();
    }
    LMC_CHECK(show(s1->recs) == "p0m0 " && s1->recs[0].name == "A", "logger A delivered: %s", show(s1->recs).c_str());
    LMC_CHECK(s2->recs.size() == 2 && s2->count("p1m0") == 1 && s2->count("p0m1") == 1, "logger B delivered: %s", show(s2->recs).c_str());
    for (auto& r : s2->recs) LMC_CHECK(r.name == "B", "logger name %s", r.name.c_str());
    LMC_CHECK(show(s3->recs) == "p0m1 ", "the filtering sink got: %s", show(s3->recs).c_str());
    lmc::outcome(show(s2->recs));
}
// a long run through a small queue: blocks of the queue fill up and are used again
template <class Pool>
static void many(int N, size_t Q) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(Q, 1);
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        for (int i = 0; i < N; i++) lg->log(ll::level::info, ll::fmt_string_view(mtext(0, i)));
        lg.reset(); tp.reset();
    }
    check_once(*sink, 1, N, "after shutdown");
    lmc::outcome(std::to_string(sink->recs.size()));
}
// through the public factory and close()
static std::shared_ptr<CapSink> g_sink;
struct FwdSink : ll::sinks::sink {
    void log(const ll::base::log_msg& m) override { g_sink->log(m); }
    void flush() override { g_sink->flush(); }
    void set_pattern(const std::string&) override {}
    void set_formatter(ll::formatter_uni_ptr) override {}
};
template <class Pool>
static void by_registry(bool at_exit) {
    g_sink = std::make_shared<CapSink>();
    ll::initialize_thread_pool<Pool>(64, 1);
    auto lg = ll::async_factory_template<Pool>::template create<FwdSink>("L");
    LMC_CHECK(ll::get_logger("L") == lg, "logger is not registered");
    {
        std::thread t([&] { ll::get_logger("L")->info("p1m0"); });
        lg->info("p0m0");
        t.join();
    }
    lg.reset();
    if (at_exit) lmc::exit_process([] { check_once(*g_sink, 2, 1, "after process exit"); lmc::outcome(show(g_sink->recs)); });
    ll::close();
    check_once(*g_sink, 2, 1, "after close()");
    lmc::outcome(show(g_sink->recs));
}

// threads that come and go, and more of them than workers
template <class Pool>
static void churn(int P, int W, size_t Q) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(Q, W);
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        for (int p = 0; p < P; p++) { std::thread t([=] { lg->log(ll::level::info, ll::fmt_string_view(mtext(p, 0))); if (p % 3 == 0) lg->flush(); lg->log(ll::level::info, ll::fmt_string_view(mtext(p, 1))); }); t.join(); }
        lg.reset(); tp.reset();
    }
    check_once(*sink, P, 2, "after shutdown");
    lmc::outcome(std::to_string(sink->recs.size()));
}
#ifdef MANY_THREADS
LMC_SCENARIO(lock_churn, 0, 1, lmc::F_DELAY) { churn<LockPool>(70, 2, 3); }
LMC_SCENARIO(free_churn, 0, 1, lmc::F_DELAY) { churn<FreePool>(12, 2, 1024); }
LMC_SCENARIO(conc_churn, 0, 1, lmc::F_DELAY) { churn<ConcPool>(70, 2, 64); }
LMC_SCENARIO(conc_churn_5w, 1, 2, lmc::F_DELAY) { churn<ConcPool>(20, 5, 64); }
#else
#if defined(LEARNLOG_USE_TLS)
LMC_SCENARIO(lock_2p_1w_q1, 2, 4, 0) { deliver<LockPool>({2, 1, 1, 1, true}); }
LMC_SCENARIO(lock_2p2m_1w_q1, 1, 3, 0) { deliver<LockPool>({2, 2, 1, 1, true}); }
LMC_SCENARIO(lock_2p_2w_q2, 1, 3, 0) { deliver<LockPool>({2, 1, 2, 2, true}); }
LMC_SCENARIO(lock_4p_1w_q2, 0, 1, 0) { deliver<LockPool>({4, 1, 1, 2, true}); }
LMC_SCENARIO(lock_1p3m_2w_q1, 1, 3, 0) { deliver<LockPool>({1, 3, 2, 1, true}); }
LMC_SCENARIO(lock_slow_sink, 1, 3, 0) { deliver<LockPool, SlowSink>({2, 2, 1, 1, true}); }
LMC_SCENARIO(free_slow_sink, 0, 1, 0) { deliver<FreePool, SlowSink>({2, 1, 1, 128, true}); }
LMC_SCENARIO(conc_slow_sink, 1, 2, 0) { deliver<ConcPool, SlowSink>({2, 1, 2, 128, true}); }
LMC_SCENARIO(lock_many, 0, 0, 0) { many<LockPool>(300, 7); }
LMC_SCENARIO(lock_shutdown, 3, 4, 0) { shutdown_race<LockPool>(2, 1, 1); }
LMC_SCENARIO(lock_two_loggers, 1, 2, 0) { two_loggers<LockPool>(1); }
LMC_SCENARIO(lock_close, 1, 2, 0) { by_registry<LockPool>(false); }
LMC_SCENARIO(lock_exit, 1, 2, 0) { by_registry<LockPool>(true); }
#endif
LMC_SCENARIO(free_1p2m_1w, 1, 3, 0) { deliver<FreePool>({1, 2, 1, 64, true}); }
LMC_SCENARIO(free_2p_1w, 1, 2, 0) { deliver<FreePool>({2, 1, 1, 128, true}); }
LMC_SCENARIO(free_2p_2w, 0, 1, 0) { deliver<FreePool>({2, 1, 2, 128, true}); }
LMC_SCENARIO(free_shutdown, 1, 2, 0) { shutdown_race<FreePool>(2, 1, 128); }
#if defined(LEARNLOG_USE_TLS)
// more logging threads than blocks of 32 messages: recorded as a known finding
LMC_SCENARIO(free_few_blocks, 0, 0, 0) { deliver<FreePool>({2, 1, 1, 32, true}); }
LMC_SCENARIO(free_two_loggers, 0, 1, 0) { two_loggers<FreePool>(1); }
LMC_SCENARIO(free_many, 0, 0, 0) { many<FreePool>(70, 64); }
LMC_SCENARIO(free_exit, 0, 1, 0) { by_registry<FreePool>(true); }
#endif
LMC_SCENARIO(conc_1p2m_1w, 2, 4, 0) { deliver<ConcPool>({1, 2, 1, 64, true}); }
LMC_SCENARIO(conc_2p_1w, 1, 3, 0) { deliver<ConcPool>({2, 1, 1, 128, true}); }
LMC_SCENARIO(conc_2p_2w, 1, 2, 0) { deliver<ConcPool>({2, 1, 2, 128, true}); }
LMC_SCENARIO(conc_3p_2w, 0, 1, 0) { deliver<ConcPool>({3, 1, 2, 128, true}); }
LMC_SCENARIO(conc_1p_2w, 1, 2, 0) { deliver<ConcPool>({1, 1, 2, 128, true}); }
LMC_SCENARIO(conc_shutdown, 1, 3, 0) { shutdown_race<ConcPool>(2, 1, 128); }
#if defined(LEARNLOG_USE_TLS)
LMC_SCENARIO(conc_two_loggers, 0, 1, 0) { two_loggers<ConcPool>(2); }
LMC_SCENARIO(conc_many, 0, 0, 0) { many<ConcPool>(70, 1); }
LMC_SCENARIO(conc_exit, 0, 2, 0) { by_registry<ConcPool>(true); }
#endif
#endif
