// C11: periodic flushing keeps its cadence, stops promptly and for good, and never blocks anybody for long.
#include "async_common.h"
#include "base/periodic_function.h"
#include <unistd.h>
typedef std::chrono::milliseconds ms; using ll::base::periodic_function;
static void nap(long long us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }
struct Runs { std::mutex m; std::vector<uint64_t> at; bool dead; int inside; Runs() : dead(false), inside(0) {}
    void go(int work) { { std::lock_guard<std::mutex> g(m); LMC_CHECK(!dead, "the function was called after it had been stopped"); LMC_CHECK(!inside, "two calls at a time"); inside++; at.push_back(lmc::now_ms()); lmc::note("run at %d ms", (int)lmc::now_ms()); } nap(work * 1000ll); { std::lock_guard<std::mutex> g(m); LMC_CHECK(!dead, "the function was still running after it had been stopped"); inside--; } } };
template <class D> static void cadence(D interval, long long period_us, int work, long long stop_us) {
    Runs r; { periodic_function f([&] { r.go(work); }, interval); nap(stop_us); uint64_t t0 = lmc::now_ms(); (void)t0; }
    { std::lock_guard<std::mutex> g(r.m); r.dead = true; LMC_CHECK(!r.inside, "a call is still going on"); }
    uint64_t end = lmc::now_ms(), stop = stop_us / 1000; long long step = period_us + work * 1000ll; size_t lo = 0, hi = 0; for (long long t = period_us; t <= stop_us; t += step) { hi++; if (t < stop_us) lo++; }
    LMC_CHECK(r.at.size() >= lo && r.at.size() <= hi, "%zu calls within %d ms, expected %zu", r.at.size(), (int)stop, hi); for (size_t i = 0; i < r.at.size(); i++) LMC_CHECK((long long)r.at[i] == (period_us + (long long)i * step) / 1000, "call %zu after %d ms", i, (int)r.at[i]);
    uint64_t busy = r.at.empty() ? 0 : r.at.back() + work; LMC_CHECK(end <= std::max(stop, busy), "stopping took until %d ms (asked at %d, the last call ended at %d)", (int)end, (int)stop, (int)busy);
    nap(10 * period_us); lmc::outcome(std::to_string(r.at.size()) + "@" + std::to_string(end));
}
static void cadences() { static const int stops[] = {0, 5, 10, 11, 25, 30, 31}; int s = stops[lmc::choose(7)], work = lmc::choose(3) * 4; switch (lmc::choose(3)) { case 0: cadence(ms(10), 10000, work, s * 1000); break; case 1: cadence(std::chrono::microseconds(10000), 10000, work, s * 1000); break; default: cadence(std::chrono::duration<double>(0.01), 10000, work, s * 1000); } }
LMC_SCENARIO(run_and_stop, 4, 8, 0) { cadences(); }
LMC_SCENARIO(spurious_wakeups, 3, 4, lmc::F_SPURIOUS) { cadences(); }
LMC_SCENARIO(seconds, 4, 8, 0) { cadence(std::chrono::seconds(2), 2000000, 0, 7000000); }
LMC_SCENARIO(long_work, 4, 8, 0) { cadence(ms(10), 10000, 5 * (1 + lmc::choose(3)) * (1 + lmc::choose(3)), 100000); }
LMC_SCENARIO(many_periods, 1, 2, 0) { cadence(ms(10), 10000, 0, 12345000); }
LMC_SCENARIO(hours, 3, 6, 0) { cadence(std::chrono::hours(5), 18000000000ll, 0, 40000000000ll); }
LMC_SCENARIO(years, 2, 4, 0) { static const long long H[] = {24 * 30, 24 * 60, 24 * 365 * 10}; long long h = H[lmc::choose(3)], us = h * 3600000000ll; int u = lmc::choose(3); if (u == 0) cadence(std::chrono::hours(h), us, 0, 2 * us + us / 2); else if (u == 1) cadence(std::chrono::milliseconds(h * 3600000), us, 0, 2 * us + us / 2); else cadence(std::chrono::microseconds(us), us, 0, 2 * us + us / 2); }
// the system's clock is set meanwhile, forwards or back: the cadence stays, and stopping is prompt
LMC_SCENARIO(clock_set, 2, 4, 0) {
    static const long long J[] = {3600, -3600, 1000000000, -1000000000, 0}; long long j = J[lmc::choose(4)], k = J[lmc::choose(5)]; static const int at[] = {0, 5, 10, 25}; int a = at[lmc::choose(4)], work = lmc::choose(2) * 4; Runs r;
    { periodic_function f([&] { r.go(work); }, ms(10)); nap(a * 1000); lmc::set_clock(j * 1000000000ll); nap(1000); if (k) lmc::set_clock(k * 1000000000ll); nap((44 - a) * 1000); } r.dead = true; LMC_CHECK(lmc::now_ms() == 45, "stopping took until %d ms", (int)lmc::now_ms());
    LMC_CHECK(r.at.size() == (work ? 3 : 4), "%zu calls within 45 ms", r.at.size()); for (size_t i = 0; i < r.at.size(); i++) LMC_CHECK(r.at[i] == 10 + i * (10 + work), "call %zu after %d ms", i, (int)r.at[i]); lmc::outcome(std::to_string(work));
}
// intervals beyond what the clock can count: no run within the next years, and stopping is still prompt
template <class D> static void longest() { static const D I[] = {D::max(), D::max() - D(1), D(D::max().count() / 2), D(D::max().count() / 4 * 3)}; D d = I[lmc::choose(4)]; std::chrono::duration<double> s = d; if (s.count() < 3e9) return; Runs r; { periodic_function f([&] { r.go(0); LMC_CHECK(false, "called after %d ms", (int)lmc::now_ms()); }, d); nap(lmc::choose(2) * 40ll * 365 * 24 * 3600000000ll); } LMC_CHECK(r.at.empty(), "called"); lmc::outcome("none"); }
LMC_SCENARIO(longest_intervals, 3, 6, 0) { switch (lmc::choose(7)) { case 0: longest<std::chrono::hours>(); break; case 1: longest<std::chrono::minutes>(); break; case 2: longest<std::chrono::seconds>(); break; case 3: longest<ms>(); break; case 4: longest<std::chrono::microseconds>(); break; case 5: longest<std::chrono::nanoseconds>(); break; default: longest<std::chrono::duration<double>>(); } }
// intervals that are no whole number of milliseconds
template <class D> static void fine(D d, long long ns) {
    std::mutex m; std::vector<long long> at; auto now = [] { return (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }; long long t0 = now(); int n = 3 + lmc::choose(2);
    { periodic_function f([&] { std::lock_guard<std::mutex> g(m); at.push_back(now() - t0); }, d); std::this_thread::sleep_for(std::chrono::nanoseconds(n * ns + ns / 2)); } long long end = now() - t0;
    LMC_CHECK((int)at.size() == n, "%zu calls within %lld ns at intervals of %lld ns", at.size(), n * ns + ns / 2, ns); for (int i = 0; i < n; i++) LMC_CHECK(std::llabs(at[i] - (i + 1) * ns) <= (i + 1) * (ns / 1000000 + 1), "call %d after %lld ns, the interval is %lld ns", i, at[i], ns); LMC_CHECK(end == n * ns + ns / 2, "it took %lld ns", end); lmc::outcome(std::to_string(ns) + "/" + std::to_string(n));
}
LMC_SCENARIO(fine_intervals, 2, 4, 0) { typedef std::chrono::microseconds us; switch (lmc::choose(8)) { case 0: fine(us(1500), 1500000); break; case 1: fine(us(999), 999000); break; case 2: fine(us(1), 1000); break; case 3: fine(std::chrono::nanoseconds(1234567), 1234567); break; case 4: fine(std::chrono::duration<double>(0.0025), 2500000); break; case 5: fine(std::chrono::duration<double>(1.5), 1500000000ll); break; case 6: fine(std::chrono::duration<float, std::ratio<60>>(0.5f), 30000000000ll); break; default: fine(us(60000001), 60000001000ll); } }
LMC_SCENARIO(minutes, 4, 8, 0) { cadence(std::chrono::minutes(1), 60000000, 0, 150000000); }
LMC_SCENARIO(never, 2, 3, 0) { Runs r; int k = lmc::choose(3); { periodic_function f([&] { r.go(0); }, ms(k == 0 ? 0 : k == 1 ? -5 : -1000)); nap(100000); LMC_CHECK(lmc::live_threads() == 0, "a thread for an empty interval"); } LMC_CHECK(r.at.empty(), "called %zu times", r.at.size()); LMC_CHECK(lmc::now_ms() == 100, "took %d ms", (int)lmc::now_ms()); lmc::outcome(std::to_string(k)); }
// stopped by another thread than the one that started it, two at a time
LMC_SCENARIO(two_functions, 3, 5, 0) { Runs a, b; { std::unique_ptr<periodic_function> f(new periodic_function([&] { a.go(0); }, ms(10))), g(new periodic_function([&] { b.go(0); }, ms(15))); nap(31000); std::thread t([&] { g.reset(); }); f.reset(); t.join(); a.dead = b.dead = true; } LMC_CHECK(a.at.size() == 3 && b.at.size() == 2, "%zu and %zu calls", a.at.size(), b.at.size()); nap(100000); lmc::outcome("3,2"); }
// flush_every: all registered loggers, those registered later too, none after close() or once replaced
static std::shared_ptr<CapSink> reg(const char* n) { auto s = std::make_shared<CapSink>(); ll::register_logger(std::make_shared<ll::logger>(n, s)); return s; }
template <class S> static size_t fl(const std::shared_ptr<S>& s) { std::lock_guard<std::mutex> g(s->m); return s->flush_at.size(); }
LMC_SCENARIO(flush_every, 3, 5, 0) {
    auto a = reg("A"); ll::flush_every(ms(10)); nap(25000); LMC_CHECK(fl(a) == 2, "%zu flushes in 25 ms", fl(a)); auto b = reg("B"); nap(10000); LMC_CHECK(fl(a) == 3 && fl(b) == 1, "%zu, %zu flushes", fl(a), fl(b)); ll::remove_logger("A"); nap(10000); LMC_CHECK(fl(a) == 3 && fl(b) == 2, "after removing A: %zu, %zu flushes", fl(a), fl(b));
    int how = lmc::choose(4); uint64_t t0 = lmc::now_ms(); size_t n = fl(b); if (how == 0) { ll::flush_every(ms(20)); nap(50000); n += 2; } else if (how == 1) { ll::flush_every(ms(0)); nap(50000); } else if (how == 2) { ll::close(); nap(50000); } else { ll::flush_every(std::chrono::seconds(1)); ll::close(); ll::register_logger(std::make_shared<ll::logger>("B", b)); nap(2500000); t0 += 2450; ll::flush_every(ms(10)); nap(0); }
    LMC_CHECK(fl(b) == n, "case %d: %zu flushes, expected %zu", how, fl(b), n); LMC_CHECK(lmc::now_ms() == t0 + 50, "stopping or replacing took %d ms", (int)(lmc::now_ms() - t0 - 50)); ll::close(); lmc::outcome(std::to_string(how));
}
LMC_SCENARIO(flush_clock_set, 2, 4, 0) { auto a = reg("A"); ll::flush_every(ms(10)); nap(5000); lmc::set_clock((lmc::choose(2) ? 3600 : -3600) * 1000000000ll); nap(30000); LMC_CHECK(fl(a) == 3, "%zu flushes in 35 ms", fl(a)); ll::close(); LMC_CHECK(lmc::now_ms() == 35, "closing took until %d ms", (int)lmc::now_ms()); lmc::outcome("3"); }
// replaced or closed at the very moment of a flush, while others log, register and remove
LMC_SCENARIO(at_the_same_time, 4, 6, 0) {
    auto a = reg("A"); ll::flush_every(ms(10)); int how = lmc::choose(3); size_t before = 0; std::thread t([&] { nap(10000); auto g = ll::get_logger("A"); if (g) g->log(ll::level::info, ll::fmt_string_view("x")); ll::remove_logger("A"); g.reset(); auto b = reg("C"); });
    nap(10000); if (how == 0) ll::close(); else if (how == 1) ll::flush_every(ms(10)); else ll::flush_every(ms(0)); before = fl(a); t.join(); LMC_CHECK(lmc::now_ms() == 10, "it took %d ms", (int)lmc::now_ms() - 10); LMC_CHECK(before <= 1, "%zu flushes", before); if (how != 1) { nap(30000); LMC_CHECK(fl(a) == before, "flushed after it was stopped"); } LMC_CHECK(a->recs.size() <= 1, "%zu messages", a->recs.size()); ll::close(); lmc::outcome(std::to_string(how) + std::to_string(before) + std::to_string(a->recs.size()));
}
LMC_SCENARIO(two_replace, 3, 4, 0) { auto a = reg("A"); std::thread t([&] { ll::flush_every(ms(10)); }); ll::flush_every(ms(10)); t.join(); nap(35000); LMC_CHECK(fl(a) == 3, "%zu flushes: not exactly one flusher is left", fl(a)); std::thread u([&] { ll::close(); }); ll::close(); u.join(); nap(50000); LMC_CHECK(fl(a) == 3, "flushed after close()"); LMC_CHECK(lmc::live_threads() == 0, "a thread is left"); lmc::outcome("ok"); }
// a sink that fails to flush does not end the flushing, nor keep the others from being flushed
struct BadFlush : CapSink { void flush() override { CapSink::flush(); throw std::runtime_error("no flush"); } };
LMC_SCENARIO(failing_sink, 3, 5, 0) { stderr = fopen((std::string(lmc::scratch()) + "/e").c_str(), "w"); auto a = std::make_shared<BadFlush>(); ll::register_logger(std::make_shared<ll::logger>("A", a)); auto b = reg("B"); ll::flush_every(ms(10)); nap(35000); LMC_CHECK(fl(a) == 3 && fl(b) == 3, "%zu, %zu flushes", fl(a), fl(b)); ll::close(); lmc::outcome("ok"); }
// with asynchronous loggers: flushed through the pool; closing meanwhile drains and ends
template <class Pool> static void async(int when) {
    auto s = std::make_shared<CapSink>(); { auto tp = std::make_shared<Pool>(64, 1); ll::register_thread_pool(tp); auto g = std::make_shared<ll::async_logger>("L", s, tp); tp.reset(); ll::register_logger(g); ll::flush_every(ms(10)); g->log(ll::level::info, ll::fmt_string_view("one")); nap(when * 1000); g->log(ll::level::info, ll::fmt_string_view("two")); if (when == 15) LMC_CHECK(fl(s) == 1 && s->flush_at[0] == 1, "%zu flushes", fl(s)); }
    ll::close(); LMC_CHECK(s->recs.size() == 2, "%zu of 2 messages", s->recs.size()); LMC_CHECK(fl(s) <= 1, "flushes"); LMC_CHECK(lmc::now_ms() == (uint64_t)when, "closing took %d ms", (int)lmc::now_ms() - when); size_t n = fl(s); nap(50000); LMC_CHECK(fl(s) == n, "flushed after close()"); lmc::outcome(std::to_string(when) + std::to_string(n));
}
LMC_SCENARIO(async_lock, 2, 3, 0) { async<LockPool>(lmc::choose(2) ? 15 : 10); }
LMC_SCENARIO(async_free, 1, 2, 0) { async<FreePool>(lmc::choose(2) ? 15 : 10); }
// a program that ends with the flusher on
static std::shared_ptr<CapSink> g_s; static uint64_t g_t;
LMC_SCENARIO(process_exit, 4, 8, 0) { g_s = reg("A"); ll::flush_every(std::chrono::seconds(lmc::choose(2) ? 3600 : 1)); nap(lmc::choose(3) * 500000); g_t = lmc::now_ms(); lmc::exit_process([] { LMC_CHECK(lmc::now_ms() == g_t, "the end of the process took %d ms", (int)(lmc::now_ms() - g_t)); lmc::outcome(std::to_string(g_t)); }); }
