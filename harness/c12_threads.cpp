// C12, several threads: every message stored is dumped exactly once, in its thread's order, and every dump has its start and end line.
#include "async_common.h"
#include <set>
static std::string key(const std::string& t) { return t.find("Backtrace Start") != std::string::npos ? "[" : t.find("Backtrace End") != std::string::npos ? "]" : t; }
static std::string flat(CapSink& s) { std::string o; for (auto& r : s.recs) o += key(r.text) + " "; return o; }
static int lines(CapSink& s, const std::string& k) { int n = 0; for (auto& r : s.recs) n += key(r.text) == k; return n; }
static void put(ll::logger& g, int p, int i) { g.log(ll::level::info, ll::fmt_string_view(mtext(p, i))); }
// P threads store N messages each, D threads dump meanwhile; one dump at the end
static void storing(int P, int N, int D, size_t cap) {
    auto s = std::make_shared<CapSink>(); ll::logger g("L", s); g.set_log_level(ll::level::off); g.enable_backtrace_n(cap);
    std::vector<std::thread> th; for (int d = 0; d < D; d++) th.emplace_back([&] { g.dump_backtrace(); }); for (int p = 1; p < P; p++) th.emplace_back([&, p] { for (int i = 0; i < N; i++) put(g, p, i); });
    for (int i = 0; i < N; i++) put(g, 0, i); for (auto& t : th) t.join(); size_t before = s->recs.size(); g.dump_backtrace(); std::string o = flat(*s); int n = 0;
    LMC_CHECK(lines(*s, "[") == D + 1 && lines(*s, "]") == D + 1, "dumps without their first or last line: %s", o.c_str());
    for (int p = 0; p < P; p++) for (int i = 0; i < N; i++) { size_t c = s->count(mtext(p, i)); n += c; LMC_CHECK(c <= 1 && (c == 1 || cap < (size_t)(P * N)), "message %s dumped %zu times: %s", mtext(p, i).c_str(), c, o.c_str()); }
    if (cap >= (size_t)(P * N)) check_order(*s, P, "dumps"); size_t fin = s->recs.size() - before - 2; LMC_CHECK(fin <= cap, "the last dump has %zu messages: %s", fin, o.c_str());
    if (!D) { LMC_CHECK(fin == std::min(cap, (size_t)(P * N)), "%zu of %zu messages: %s", fin, cap, o.c_str()); int last = -1; (void)last; bool any = false; for (int p = 0; p < P; p++) any |= key(s->recs[s->recs.size() - 2].text) == mtext(p, N - 1); LMC_CHECK(any, "the newest message is not the last one: %s", o.c_str()); }
    lmc::outcome(o);
}
LMC_SCENARIO(two_store, 6, 12, 0) { storing(2, 2, 0, 8); }
LMC_SCENARIO(two_store_small, 6, 12, 0) { storing(2, 2, 0, 1 + lmc::choose(3)); }
LMC_SCENARIO(store_and_dump, 5, 10, 0) { storing(1, 3, 1, 8); }
LMC_SCENARIO(two_store_and_dump, 3, 5, 0) { storing(2, 2, 1, 8); }
LMC_SCENARIO(two_dumps, 3, 5, 0) { storing(1, 3, 2, 8); }
LMC_SCENARIO(small_and_dump, 3, 5, 0) { storing(2, 2, 1, 2); }
// messages are written and stored at the same time; enabling again and disabling meanwhile
LMC_SCENARIO(enable_again, 5, 10, 0) {
    auto s = std::make_shared<CapSink>(); ll::logger g("L", s); g.enable_backtrace_n(4); int off = lmc::choose(2); std::thread t([&] { put(g, 1, 0); put(g, 1, 1); }); if (off) g.disable_backtrace(); else g.enable_backtrace_n(2); put(g, 0, 0); t.join(); size_t n = s->recs.size(); LMC_CHECK(n == 3, "%s", flat(*s).c_str()); g.dump_backtrace(); std::string o = flat(*s);
    if (off) LMC_CHECK(s->recs.size() == n, "a disabled backtrace was dumped: %s", o.c_str()); else { size_t k = s->recs.size() - n - 2; LMC_CHECK(lines(*s, "[") == 1 && lines(*s, "]") == 1 && k >= 1 && k <= 2, "%s", o.c_str()); std::set<std::string> x; for (size_t i = n + 1; i + 1 < s->recs.size(); i++) LMC_CHECK(x.insert(s->recs[i].text).second, "dumped twice: %s", o.c_str()); }
    if (off) { g.enable_backtrace_n(4); put(g, 0, 1); g.dump_backtrace(); LMC_CHECK(s->recs.size() == n + 4 && s->recs[n + 2].text == mtext(0, 1), "after enabling again: %s", flat(*s).c_str()); } lmc::outcome(o);
}
// asynchronous: the dump goes through the queue behind what was logged before, whole, also with a queue of one
template <class Pool> static void async(size_t q, int P) {
    auto s = std::make_shared<CapSink>();
    { auto tp = std::make_shared<Pool>(q, 1); auto g = std::make_shared<ll::async_logger>("L", s, tp); g->enable_backtrace_n(2); g->set_log_level(ll::level::warn); std::vector<std::thread> th; for (int p = 1; p < P; p++) th.emplace_back([&, p] { g->log(ll::level::error, ll::fmt_string_view(mtext(p, 0))); });
      put(*g, 0, 0); put(*g, 0, 1); put(*g, 0, 2); g->dump_backtrace(); for (auto& t : th) t.join(); g->dump_backtrace(); g->flush(); if (P == 1) LMC_CHECK(flat(*s) == "[ p0m1 p0m2 ] [ ] ", "after a flush: %s", flat(*s).c_str()); }
    std::string o = flat(*s); LMC_CHECK(lines(*s, "[") == 2 && lines(*s, "]") == 2, "dumps: %s", o.c_str()); if (P == 1) LMC_CHECK(o == "[ p0m1 p0m2 ] [ ] ", "dumps: %s", o.c_str()); else { size_t c = s->count(mtext(1, 0)); LMC_CHECK(c == 1 || c == 2, "message of the other thread %zu times: %s", c, o.c_str()); LMC_CHECK(s->count(mtext(0, 2)) <= 1, "%s", o.c_str()); } lmc::outcome(o);
}
LMC_SCENARIO(lock, 2, 4, 0) { async<LockPool>(1, 1); }
LMC_SCENARIO(lock_two, 1, 2, 0) { async<LockPool>(2, 2); }
LMC_SCENARIO(free, 1, 2, 0) { async<FreePool>(64, 1); }
LMC_SCENARIO(conc, 1, 2, 0) { async<ConcPool>(64, 1); }
