// C05: an asynchronous logger takes its message over when the call returns: text, logger name, level,
// location, time and thread id reach the sink as they were, whatever the caller does afterwards.
#include "async_common.h"
#include <cstring>
#include <sstream>
#include <unistd.h>
#include <sys/syscall.h>
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"

static std::string body_of(int p, size_t n) { std::string s(n, 'a' + p); for (size_t i = 0; i < n; i += 7) s[i] = (char)('A' + (i / 7 + p) % 26); if (n > 3) s[3] = '\0'; return s; }
static int lno(int p) { return p ? 2147483647 : 70000; }      // line numbers beyond 16 bits
static std::string sum(const std::string& s) { return std::to_string(s.size()); }

// sizes around the inline capacity of the message buffer (250 bytes for name and text together)
template <class Pool>
static void sizes(int P, size_t Q, const std::vector<size_t>& sz, const std::vector<size_t>& names) {
    size_t n = sz[lmc::choose((int)sz.size(), "size")]; std::string name(names[lmc::choose((int)names.size(), "name length")], 'N');
    auto sink = std::make_shared<CapSink>(); std::vector<size_t> tid(P);
    ll::sys_clock::time_point t0{std::chrono::nanoseconds(1712345678901234567ll)};
    {
        auto tp = std::make_shared<Pool>(Q, 1);
        auto lg = std::make_shared<ll::async_logger>(name, sink, tp);
        auto body = [&](int p) {
            tid[p] = (size_t)syscall(SYS_gettid);
            std::vector<char> buf(n + 1); std::string want = body_of(p, n); memcpy(buf.data(), want.data(), n);
            std::vector<char> fn(8); strcpy(fn.data(), "f.cpp");
            lg->log(t0 + std::chrono::nanoseconds(p), ll::source_loc{"file.cpp", lno(p), "func"}, p ? ll::level::critical : ll::level::info, ll::fmt_string_view(buf.data(), n));
            for (size_t i = 0; i < n; i++) buf[i] = '#';      // the caller's buffer is used for something else now
        };
        std::vector<std::thread> th;
        for (int p = 1; p < P; p++) th.emplace_back(body, p);
        body(0);
        for (auto& t : th) t.join();
        lg.reset();
    }
    LMC_CHECK((int)sink->recs.size() == P, "%zu messages delivered", sink->recs.size());
    for (auto& r : sink->recs) {
        int p = r.line != lno(0); LMC_CHECK(p < P && r.line == lno(p), "line %d", r.line);
        LMC_CHECK(r.text == body_of(p, n), "text of %zu bytes changed on its way to the sink (%zu bytes arrived)", n, r.text.size());
        LMC_CHECK(r.name == name, "logger name changed: '%s'", r.name.c_str());
        LMC_CHECK(r.level == (p ? ll::level::critical : ll::level::info), "level changed to %d", r.level);
        LMC_CHECK(r.file == "file.cpp" && r.func == "func", "location changed: %s %s", r.file.c_str(), r.func.c_str());
        LMC_CHECK(r.ns == 1712345678901234567ll + p, "time changed to %lld", r.ns);
        LMC_CHECK(r.tid == tid[p], "thread id is that of another thread");
    }
    lmc::outcome(sum(sink->recs[0].text) + "/" + std::to_string(name.size()));
}
// formatted messages: arguments die before the message is written; several messages wait at a time
template <class Pool>
static void formatted(size_t Q) {
    auto sink = std::make_shared<CapSink>();
    {
        auto tp = std::make_shared<Pool>(Q, 1);
        {
            auto lg = std::make_shared<ll::async_logger>("name-" + std::string(20, 'x'), sink, tp);
            for (int i = 0; i < 3; i++) { std::string arg(i * 130, (char)('a' + i)); lg->info("<{}:{}>", i, arg); }
            { std::string t = "temporary"; lg->warn(t); }
            lg->error("{:>5}|{:x}", 42, 255);
        }   // the logger itself may be gone when the messages are written
    }
    std::vector<std::string> want = {"<0:>", "<1:" + std::string(130, 'b') + ">", "<2:" + std::string(260, 'c') + ">", "temporary", "   42|ff"};
    LMC_CHECK(sink->recs.size() == want.size(), "%zu messages delivered", sink->recs.size());
    for (size_t i = 0; i < want.size(); i++) {
        LMC_CHECK(sink->recs[i].text == want[i], "message %zu is '%s'", i, sink->recs[i].text.c_str());
        LMC_CHECK(sink->recs[i].name == "name-" + std::string(20, 'x'), "name is '%s'", sink->recs[i].name.c_str());
    }
    lmc::outcome(show(sink->recs));
}
// the time of a message is the time of the call, not of its writing
template <class Pool>
static void call_time() {
    auto sink = std::make_shared<CapSink>(); long long a = 0, b = 0;
    {
        auto tp = std::make_shared<Pool>(64, 1);
        auto lg = std::make_shared<ll::async_logger>("L", sink, tp);
        a = ll::sys_clock::now().time_since_epoch().count();
        lg->info("x");
        b = ll::sys_clock::now().time_since_epoch().count();
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    LMC_CHECK(sink->recs.size() == 1 && sink->recs[0].ns >= a && sink->recs[0].ns <= b, "logged between %lld and %lld, recorded time %lld", a, b, sink->recs[0].ns);
    lmc::outcome("t");
}
// a time the caller gives is kept, however far from now
template <class Pool>
static void given_time() {
    static const long long D[] = {0, 1, -1, 999999999, -1000000000, 3600000000000ll, -3600000000000ll, 400000000000000000ll, -400000000000000000ll, 6000000000000000000ll, -1699999999999999999ll, -1700000000000000000ll, -1700000000000000001ll, -3000000000000000000ll};
    int k = lmc::choose(14), n = 1 + lmc::choose(2); auto sink = std::make_shared<CapSink>(); long long t = ll::sys_clock::now().time_since_epoch().count() + D[k];
    { auto tp = std::make_shared<Pool>(64, 1); auto lg = std::make_shared<ll::async_logger>("L", sink, tp); for (int i = 0; i < n; i++) { ll::sys_clock::time_point p{std::chrono::nanoseconds(t + i)}; lg->log(p, ll::source_loc{}, i ? ll::level::warn : ll::level::info, ll::fmt_string_view("0")); } std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
    LMC_CHECK((int)sink->recs.size() == n, "%zu messages", sink->recs.size()); for (int i = 0; i < n; i++) LMC_CHECK(sink->recs[i].ns == t + i, "logged with time now%+lld ns, written with now%+lld ns", D[k] + i, sink->recs[i].ns - t + D[k]);
    lmc::outcome(std::to_string(k));
}
LMC_SCENARIO(lock_given_time, 0, 1, 0) { given_time<LockPool>(); }
LMC_SCENARIO(free_given_time, 0, 0, 0) { given_time<FreePool>(); }
LMC_SCENARIO(conc_given_time, 0, 0, 0) { given_time<ConcPool>(); }
// the logger gets another name (swapped with another one) while its messages wait
template <class Pool>
static void renamed() {
    static const size_t N[] = {2, 15, 16, 100, 300}; auto sink = std::make_shared<CapSink>(); std::string na(N[lmc::choose(5, "name")], 'a'), nb(N[lmc::choose(5, "other name")], 'b'); std::mutex gate; gate.lock();
    {
        auto tp = std::make_shared<Pool>(8, 1, [&] { std::lock_guard<std::mutex> l(gate); }); auto a = std::make_shared<ll::async_logger>(na, sink, tp), b = std::make_shared<ll::async_logger>(nb, sink, tp);
        a->info("one"); b->info("two"); a->swap(*b); a->info("three"); b->info("four"); gate.unlock(); a->flush();
    }
    static const char* const T[] = {"one", "two", "three", "four"}; LMC_CHECK(sink->recs.size() == 4, "%zu messages", sink->recs.size()); for (auto& r : sink->recs) { int i = 0; while (i < 4 && r.text != T[i]) i++; LMC_CHECK(i < 4, "text changed"); LMC_CHECK(r.name == (i == 0 || i == 3 ? na : nb), "message %s shows the name '%s'", T[i], r.name.c_str()); }
    lmc::outcome(std::to_string(na.size()) + "/" + std::to_string(nb.size()));
}
LMC_SCENARIO(lock_renamed, 0, 1, 0) { renamed<LockPool>(); }
LMC_SCENARIO(free_renamed, 0, 1, 0) { renamed<FreePool>(); }
LMC_SCENARIO(conc_renamed, 0, 1, 0) { renamed<ConcPool>(); }
// what a real sink of the library writes: every directive shows what was so at the call, in the calling thread
template <class Pool>
static void rendered(int P, size_t Q, int N) {
    std::ostringstream os; std::vector<size_t> tid(P); long long base = 1712345678901234567ll; setenv("TZ", "UTC0", 1); tzset();
    {
        auto tp = std::make_shared<Pool>(Q, 1); auto sink = std::make_shared<ll::sinks::ostream_sink_mt>(os); sink->set_pattern("%n|%l|%t|%p|%A|%B|%C|%@|%y-%m-%d %H:%M:%S.%G %E %F|%v|%-3B");
        std::vector<std::shared_ptr<ll::async_logger>> g; for (int p = 0; p < P; p++) g.push_back(std::make_shared<ll::async_logger>(std::string(p ? 260 : 3, 'a' + p), sink, tp));
        auto body = [&](int p) { tid[p] = (size_t)syscall(SYS_gettid); for (int i = 0; i < N; i++) { std::string t = mtext(p, i); g[p]->log(ll::sys_clock::time_point(std::chrono::nanoseconds(base + p * 1000000001ll + i)), ll::source_loc{p ? "b.cpp" : "a.cpp", 10 * p + i + 1, p ? "fb" : "fa"}, p ? ll::level::critical : ll::level::info, ll::fmt_string_view(t)); t.assign(t.size(), '#'); } };
        std::vector<std::thread> th; for (int p = 1; p < P; p++) th.emplace_back(body, p); body(0); for (auto& t : th) t.join(); g.clear();
    }
    std::vector<int> next(P, 0); std::istringstream is(os.str()); std::string l; int n = 0;
    while (std::getline(is, l)) {
        int p = l[0] - 'a'; LMC_CHECK(p >= 0 && p < P && next[p] < N, "line %s", l.c_str()); int i = next[p]++; n++; std::string f = p ? "b.cpp" : "a.cpp", ln = std::to_string(10 * p + i + 1), ns = std::to_string(901234567 + p + i);
        std::string w = std::string(p ? 260 : 3, 'a' + p) + "|" + (p ? "critical" : "info") + "|" + std::to_string(tid[p]) + "|" + std::to_string(getpid()) + "|" + f + "|" + ln + "|" + (p ? "fb" : "fa") + "|" + f + ":" + ln + "|2024-04-05 19:34:" + (p ? "39." : "38.") + ns + " 901 901234|" + mtext(p, i) + "|" + ln + std::string(3 - ln.size(), ' ');
        LMC_CHECK(l == w, "the line is %s, expected %s", l.c_str(), w.c_str());
    }
    LMC_CHECK(n == P * N, "%d lines", n); lmc::outcome(os.str().substr(0, 4));
}
LMC_SCENARIO(lock_rendered, 1, 2, 0) { rendered<LockPool>(2, 2, 2); }
LMC_SCENARIO(free_rendered, 0, 1, 0) { rendered<FreePool>(2, 64, 1); }
LMC_SCENARIO(conc_rendered, 0, 1, 0) { rendered<ConcPool>(2, 128, 1); }
LMC_SCENARIO(lock_sizes, 0, 1, 0) { sizes<LockPool>(2, 2, {0, 1, 248, 249, 250, 251, 500, 5000}, {1, 40, 250, 300}); }
LMC_SCENARIO(lock_sizes_q1, 1, 3, 0) { sizes<LockPool>(2, 1, {4, 251}, {1, 300}); }
LMC_SCENARIO(free_sizes, 0, 1, 0) { sizes<FreePool>(1, 64, {0, 1, 248, 249, 250, 251, 500, 5000}, {1, 40, 250, 300}); }
LMC_SCENARIO(free_sizes_2t, 0, 1, 0) { sizes<FreePool>(2, 128, {4, 251}, {1}); }
LMC_SCENARIO(conc_sizes, 0, 1, 0) { sizes<ConcPool>(1, 64, {0, 1, 248, 249, 250, 251, 500, 5000}, {1, 40, 250, 300}); }
LMC_SCENARIO(conc_sizes_2t, 1, 2, 0) { sizes<ConcPool>(2, 128, {4, 251}, {1}); }
// texts and names beyond 16 bits
LMC_SCENARIO(lock_long, 0, 1, 0) { sizes<LockPool>(1, 2, {32767, 32768, 65535, 65536, 70000, 1 << 20}, {1, 70000}); }
LMC_SCENARIO(free_long, 0, 0, 0) { sizes<FreePool>(1, 64, {32767, 32768, 65535, 65536, 70000, 1 << 20}, {1, 70000}); }
LMC_SCENARIO(conc_long, 0, 0, 0) { sizes<ConcPool>(1, 64, {32767, 32768, 65535, 65536, 70000, 1 << 20}, {1, 70000}); }
LMC_SCENARIO(lock_formatted, 2, 3, 0) { formatted<LockPool>(2); }
LMC_SCENARIO(free_formatted, 0, 1, 0) { formatted<FreePool>(64); }
LMC_SCENARIO(conc_formatted, 1, 2, 0) { formatted<ConcPool>(64); }
LMC_SCENARIO(lock_time, 2, 3, 0) { call_time<LockPool>(); }
LMC_SCENARIO(free_time, 0, 1, 0) { call_time<FreePool>(); }
LMC_SCENARIO(conc_time, 1, 2, 0) { call_time<ConcPool>(); }
