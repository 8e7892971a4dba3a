// S07, asynchronous loggers and several threads: a failing sink costs its own messages only; every failure is one report.
#include "async_common.h"
#include <unistd.h>
struct Bad : CapSink { int left; explicit Bad(int n) : left(n) {} void log(const ll::base::log_msg& m) override { { std::lock_guard<std::mutex> g(this->m); if (left > 0) { left--; throw std::runtime_error("bad log"); } } CapSink::log(m); } };
static std::string errpath() { return std::string(lmc::scratch()) + "/err"; }
static void open_err() { stderr = fopen(errpath().c_str(), "a"); dup2(fileno(stderr), 2); } // whichever way a report takes
static void reports(int n) {
    fflush(stderr); FILE* f = fopen(errpath().c_str(), "r"); std::string t; char b[1000]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
    std::vector<long> no; size_t p = 0; while ((p = t.find("[*** EXCEPTION #", p)) != std::string::npos) { LMC_CHECK(p == 0 || t[p - 1] == '\n', "reports run into each other: %s", t.c_str()); no.push_back(strtol(t.c_str() + p + 16, nullptr, 10)); p++; }
    LMC_CHECK((int)no.size() == n, "%zu reports, %d failures: %s", no.size(), n, t.c_str());
    for (size_t i = 0; i < no.size(); i++) for (size_t j = 0; j < i; j++) LMC_CHECK(no[i] != no[j], "two reports with number %ld", no[i]);
}
template <class Pool> static void workers(int W) {
    open_err(); auto bad = std::make_shared<Bad>(1); auto ok = std::make_shared<CapSink>();
    { auto tp = std::make_shared<Pool>(64, W); std::vector<ll::sink_shr_ptr> v{bad, ok}; auto g = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), tp);
      for (int i = 0; i < 3; i++) g->log(ll::level::info, ll::fmt_string_view(mtext(0, i))); }
    check_once(*ok, 1, 3, "the healthy sink"); LMC_CHECK(bad->recs.size() == 2, "the sink that failed once got %zu of 3 messages", bad->recs.size()); reports(1); lmc::outcome(show(ok->recs));
}
static void threads() {      // two threads fail at the same time
    open_err(); auto bad = std::make_shared<Bad>(2); auto ok = std::make_shared<CapSink>(); std::vector<ll::sink_shr_ptr> v{bad, ok}; ll::logger g("L", v.begin(), v.end());
    std::thread t([&] { g.log(ll::level::info, ll::fmt_string_view(mtext(1, 0))); }); g.log(ll::level::info, ll::fmt_string_view(mtext(0, 0))); t.join(); check_once(*ok, 2, 1, "the healthy sink"); LMC_CHECK(bad->recs.empty(), "bad sink"); reports(2); lmc::outcome(show(ok->recs));
}
LMC_SCENARIO(sync_threads, 2, 4, 0) { threads(); }
LMC_SCENARIO(lock, 1, 2, 0) { workers<LockPool>(1); }
LMC_SCENARIO(lock_2w, 1, 2, 0) { workers<LockPool>(2); }
LMC_SCENARIO(free, 0, 1, 0) { workers<FreePool>(1); }
LMC_SCENARIO(conc, 0, 1, 0) { workers<ConcPool>(1); }
