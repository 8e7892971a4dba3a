// C02: the messages of one thread reach each sink in the order in which that thread logged them.
#include "async_common.h"
#include <algorithm>

// P threads, N messages each, alternating between the loggers that share one sink
template <class Pool, class Sink = CapSink>
static void order(int P, int N, int W, size_t Q, int loggers, bool flushes) {
    auto sink = std::make_shared<Sink>();
    {
        auto tp = std::make_shared<Pool>(Q, W);
        std::vector<std::shared_ptr<ll::async_logger>> lg;
        for (int i = 0; i < loggers; i++) lg.push_back(std::make_shared<ll::async_logger>("L" + std::to_string(i), sink, tp));
        auto body = [&lg, N, flushes](int p) {
            for (int i = 0; i < N; i++) { lg[(i + p) % lg.size()]->log(i % 2 ? ll::level::error : ll::level::info, ll::fmt_string_view(mtext(p, i))); if (flushes && i == 0) lg[0]->flush(); }
        };
        std::vector<std::thread> th;
        for (int p = 1; p < P; p++) th.emplace_back(body, p);
        body(0);
        for (auto& t : th) t.join();
        lg.clear();
    }
    check_once(*sink, P, N, "after shutdown");
    check_order(*sink, P, "after shutdown");
    lmc::outcome(show(sink->recs));
}
// a handover: another thread continues a sequence after having been told that the first part was logged
template <class Pool>
static void handover(int W) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(64, W);
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        lg->log(ll::level::info, ll::fmt_string_view("p0m0"));
        std::thread t([&] { lg->log(ll::level::info, ll::fmt_string_view("p0m1")); });
        t.join();
        lg->log(ll::level::info, ll::fmt_string_view("p0m2"));
    }
    check_order(*sink, 1, "after shutdown");
    check_once(*sink, 1, 3, "after shutdown");
    lmc::outcome(show(sink->recs));
}
// every thread logs one message; after all have, they go on together: producers that share a worker's queue meet in it
template <class Pool>
static void phases(int P, int N, int W, int loggers) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(1024, W); std::mutex m; std::condition_variable cv; int in = 0;
        std::vector<std::shared_ptr<ll::async_logger>> lg;
        for (int i = 0; i < loggers; i++) lg.push_back(std::make_shared<ll::async_logger>("L" + std::to_string(i), sink, tp));
        std::vector<std::thread> th;
        for (int p = 0; p < P; p++) th.emplace_back([&, p] {
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return in == p; }); }        // in turn
            lg[0]->log(ll::level::info, ll::fmt_string_view(mtext(p, 0)));
            { std::unique_lock<std::mutex> l(m); in++; cv.notify_all(); cv.wait(l, [&] { return in >= P; }); }
            for (int i = 1; i < N; i++) lg[i % lg.size()]->log(ll::level::info, ll::fmt_string_view(mtext(p, i)));
        });
        for (auto& t : th) t.join();
        lg.clear();
    }
    check_once(*sink, P, N, "after shutdown"); check_order(*sink, P, "after shutdown");
    lmc::outcome(show(sink->recs));
}
// two workers, three producers: the third shares the first one's queue, which is busy for the other while either logs
static void shared_queue(bool two_after) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<ConcPool>(1024, 2); auto lg = std::make_shared<ll::async_logger>("L", sink, tp); std::mutex m; std::condition_variable cv; bool done = false;
        lg->log(ll::level::info, ll::fmt_string_view("p0m0"));                                                       // the first queue
        { std::thread t([&] { lg->log(ll::level::info, ll::fmt_string_view("p1m0")); }); t.join(); }                 // the second
        std::thread u([&] {                                                                                          // the first again
            lg->log(ll::level::info, ll::fmt_string_view("p2m0"));
            if (!two_after) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return done; }); }
            lg->log(ll::level::info, ll::fmt_string_view("p2m1"));
        });
        lg->log(ll::level::info, ll::fmt_string_view("p0m1"));
        { std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }
        u.join();
    }
    std::vector<std::string> texts; for (auto& r : sink->recs) texts.push_back(r.text); std::sort(texts.begin(), texts.end());
    LMC_CHECK((texts == std::vector<std::string>{"p0m0", "p0m1", "p1m0", "p2m0", "p2m1"}), "delivered: %s", show(sink->recs).c_str());
    check_order(*sink, 3, "after shutdown");
    lmc::outcome(show(sink->recs));
}
// a synchronous logger
static void sync_order() {
    auto sink = std::make_shared<CapSink>();
    auto lg = std::make_shared<ll::logger>("L", sink);
    auto body = [&](int p) { for (int i = 0; i < 3; i++) { lg->log(ll::level::info, ll::fmt_string_view(mtext(p, i))); LMC_CHECK(sink->count(mtext(p, i)) == 1, "%s is not there when the call returns", mtext(p, i).c_str()); } };
    std::thread t(body, 1); body(0); t.join();
    check_once(*sink, 2, 3, "at the end"); check_order(*sink, 2, "at the end");
    lmc::outcome(show(sink->recs));
}
#if defined(LEARNLOG_USE_TLS)
LMC_SCENARIO(sync, 2, 4, 0) { sync_order(); }
LMC_SCENARIO(lock_1p3m, 3, 5, 0) { order<LockPool>(1, 3, 1, 2, 2, false); }
LMC_SCENARIO(lock_flush, 1, 3, 0) { order<LockPool>(2, 2, 1, 2, 2, true); }
LMC_SCENARIO(lock_handover, 2, 4, 0) { handover<LockPool>(1); }
#endif
LMC_SCENARIO(free_1p3m, 1, 2, 0) { order<FreePool>(1, 3, 1, 64, 2, false); }
LMC_SCENARIO(free_2p2m, 1, 2, 0) { order<FreePool>(2, 2, 1, 128, 1, false); }
LMC_SCENARIO(free_1p34m, 0, 1, 0) { order<FreePool>(1, 34, 1, 64, 1, false); }
LMC_SCENARIO(conc_1p3m, 2, 3, 0) { order<ConcPool>(1, 3, 1, 64, 2, false); }
LMC_SCENARIO(conc_2p2m_1w, 1, 2, 0) { order<ConcPool>(2, 2, 1, 128, 1, false); }
LMC_SCENARIO(conc_2p2m_2w, 0, 1, 0) { order<ConcPool>(2, 2, 2, 128, 2, false); }
LMC_SCENARIO(conc_1p3m_2w, 1, 2, 0) { order<ConcPool>(1, 3, 2, 128, 2, false); }
LMC_SCENARIO(conc_shared_queue_free, 0, 2, 0) { shared_queue(true); }
LMC_SCENARIO(conc_2p2m_1w_phases, 1, 2, 0) { phases<ConcPool>(2, 2, 1, 2); }
LMC_SCENARIO(free_2p2m_1w_phases, 1, 2, 0) { phases<FreePool>(2, 2, 1, 2); }
LMC_SCENARIO(conc_1p34m, 0, 1, 0) { order<ConcPool>(1, 34, 1, 1, 1, false); }
LMC_SCENARIO(conc_handover, 1, 3, 0) { handover<ConcPool>(1); }
#if defined(LEARNLOG_USE_TLS)
LMC_SCENARIO(lock_2p2m, 1, 3, 0) { order<LockPool>(2, 2, 1, 1, 1, false); }
LMC_SCENARIO(conc_shared_queue, 2, 3, lmc::F_DELAY) { shared_queue(false); }
LMC_SCENARIO(lock_slow, 1, 3, 0) { order<LockPool, SlowSink>(2, 2, 1, 1, 1, false); }
LMC_SCENARIO(free_slow, 1, 2, 0) { order<FreePool, SlowSink>(1, 3, 1, 64, 2, false); }
LMC_SCENARIO(conc_slow, 1, 2, 0) { order<ConcPool, SlowSink>(1, 3, 2, 64, 2, false); }
LMC_SCENARIO(conc_slow_flush, 1, 2, 0) { order<ConcPool, SlowSink>(1, 3, 2, 64, 1, true); }
#endif
