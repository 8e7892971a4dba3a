// C08: sinks may be shared by any number of threads and loggers: every line is written whole, exactly once, in the old or the
// new pattern and colour, whatever else is done to the sink meanwhile.
#include "async_common.h"
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "logger.h"
#include <functional>
#include <ostream>
#include <streambuf>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
extern "C" int isatty(int) noexcept { return 1; }      // the files written here stand for a terminal
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "r"); if (!f) return "<missing>"; std::string t; char b[4000]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); return t; }
static std::string show1(const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "|"; else if (c == 27) o += "<ESC>"; else o += c; return o; }
static const char* const A = "%n:%v"; static const char* const B = "%n-%^%v%$";
static std::string col = "\033[32m", col2 = "<c>";
// the forms line `t` of logger `n` may have
static std::string line(const std::string& n, const std::string& t, int form) { return form == 0 ? n + ":" + t : form == 1 ? n + "-" + t : form == 2 ? n + "-" + col + t + "\033[m" : n + "-" + col2 + t + "\033[m"; }
static std::string nm(int p) { return std::string(1, (char)('a' + p)); }
// `out` must consist of exactly the lines of the threads, N[p] each; lines of one thread in order; forms change only upwards
static void check(const std::string& out, std::vector<int> N, std::set<int> forms, const char* where, bool monotone = true) {
    int P = N.size(); std::vector<int> next(P, 0); size_t at = 0; std::vector<int> order;
    while (at < out.size()) {
        size_t e = out.find('\n', at); LMC_CHECK(e != std::string::npos, "%s: the last line is not whole: %s", where, show1(out).c_str()); std::string l = out.substr(at, e - at); at = e + 1; bool ok = false;
        for (int p = 0; p < P && !ok; p++) for (int f : forms) if (next[p] < N[p] && l == line(nm(p), mtext(p, next[p]), f)) { ok = true; next[p]++; order.push_back(f); break; }
        LMC_CHECK(ok, "%s: line \"%s\" is not the next line of any thread: %s", where, show1(l).c_str(), show1(out).c_str());
    }
    for (int p = 0; p < P; p++) LMC_CHECK(next[p] == N[p], "%s: only %d of %d lines of thread %d: %s", where, next[p], N[p], p, show1(out).c_str());
    if (monotone) for (size_t i = 1; i < order.size(); i++) LMC_CHECK(order[i] >= order[i - 1], "%s: a line in the old form after one in the new: %s", where, show1(out).c_str());
    lmc::outcome(show1(out));
}
static void put(ll::logger& g, int p, int i) { g.log(ll::level::info, ll::fmt_string_view(mtext(p, i))); }
typedef std::shared_ptr<ll::sinks::sink> S;
// P threads, each with a logger of its own (or all one), N messages each; `meanwhile` runs in one more thread
static void run(S s, int P, int N, std::function<void()> meanwhile, bool one = false) {
    std::vector<std::shared_ptr<ll::logger>> g; for (int p = 0; p < P; p++) g.push_back(std::make_shared<ll::logger>(nm(p), s));
    std::vector<std::thread> th; if (meanwhile) th.emplace_back(meanwhile);
    for (int p = 1; p < P; p++) th.emplace_back([&, p] { for (int i = 0; i < N; i++) put(*g[p], p, i); });
    for (int i = 0; i < N; i++) put(*g[0], 0, i); for (auto& t : th) t.join();
}
// an unsynchronised stream buffer
struct Buf : std::streambuf { std::string t; int syncs = 0; std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) t.push_back(s[i]); return n; } int overflow(int c) override { t.push_back((char)c); return c; } int sync() override { syncs++; return 0; } };
static std::function<void()> what(S s, int k, std::set<int>& forms) {
    forms.clear(); forms.insert(0); if (k == 1) return [=] { s->flush(); s->flush(); };
    if (k == 2) { forms.insert(1); return [=] { s->set_pattern(B); }; }
    if (k == 3) { forms.insert(1); return [=] { s->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(B)); }; }
    if (k == 4) return [=] { s->set_level(ll::level::debug); s->get_level(); s->flush(); };
    return nullptr;
}
static void ostream(int P, int N, int kinds, bool ff) { Buf b; std::ostream os(&b); std::set<int> forms; auto s = std::make_shared<ll::sinks::ostream_sink_mt>(os, ff); s->set_pattern(A); run(s, P, N, what(s, lmc::choose(kinds), forms)); check(b.t, std::vector<int>(P, N), forms, "stream"); if (ff) LMC_CHECK(b.syncs >= P * N, "%d flushes for %d lines", b.syncs, P * N); }
LMC_SCENARIO(ostream_two, 3, 6, 0) { ostream(2, 2, 5, lmc::choose(2)); }
LMC_SCENARIO(ostream_three, 2, 4, 0) { ostream(3, 1, 5, false); }
static std::string path() { return std::string(lmc::scratch()) + "/f.txt"; }
static void file(int P, int N, int kinds) { std::set<int> forms; { FILE* f = fopen(path().c_str(), "w"); fputs("old\n", f); fclose(f); auto s = std::make_shared<ll::sinks::basic_file_sink_mt>(path(), false); s->set_pattern(A); run(s, P, N, what(s, lmc::choose(kinds), forms)); } std::string o = slurp(path()); LMC_CHECK(o.compare(0, 4, "old\n") == 0, "old content: %s", show1(o).c_str()); check(o.substr(4), std::vector<int>(P, N), forms, "file"); }
LMC_SCENARIO(file_two, 3, 6, 0) { file(2, 2, 5); }
LMC_SCENARIO(file_three, 2, 4, 0) { file(3, 1, 5); }
// what is there when flush() returns, while others keep writing
LMC_SCENARIO(file_flush, 6, 12, 0) {
    auto s = std::make_shared<ll::sinks::basic_file_sink_mt>(path(), false); s->set_pattern(A); ll::logger g("a", s), h("b", s); std::thread t([&] { put(h, 1, 0); put(h, 1, 1); }); put(g, 0, 0); s->flush(); std::string o = slurp(path()); LMC_CHECK(("\n" + o).find("\na:p0m0\n") != std::string::npos, "after a flush by the thread that logged it: %s", show1(o).c_str()); t.join(); s->flush(); check(slurp(path()), {1, 2}, {0}, "file"); lmc::outcome(show1(o)); }

// rolling: whole lines, in order over the files, none beyond its size, while several threads make it roll
static void rolling(int P, int N, int kinds, size_t per) {
    std::set<int> forms; { auto s = std::make_shared<ll::sinks::rolling_file_sink_mt>(path(), per, 9); s->set_pattern(A); run(s, P, N, what(s, lmc::choose(kinds), forms)); }
    std::string all; for (int i = 1; i <= 9; i++) { std::string p = std::string(lmc::scratch()) + "/f_" + std::to_string(i) + ".txt", o = slurp(p); if (o == "<missing>") { LMC_CHECK(i > 1, "no file"); break; } LMC_CHECK(o.size() <= per, "file %d has %zu bytes, at most %zu allowed: %s", i, o.size(), per, show1(o).c_str()); all += o; }
    check(all, std::vector<int>(P, N), forms, "files");
}
LMC_SCENARIO(rolling_two, 2, 4, 0) { rolling(2, 2, 5, lmc::choose(2) ? 7 : 14); }
LMC_SCENARIO(rolling_three, 2, 4, 0) { rolling(3, 1, 5, 7); }
// the console: several sinks of the program's one terminal, plain and coloured
typedef ll::sinks::ansicolor_sink<ll::base::static_mutex> Colour; typedef ll::sinks::std_sink<ll::base::static_mutex> Plain;
static void console(int k, int N) {
    setenv("TERM", "xterm", 1); FILE* f = fopen(path().c_str(), "w"); auto c = std::make_shared<Colour>(f); auto p = k & 1 ? S(std::make_shared<Plain>(f)) : S(std::make_shared<Colour>(f)); c->set_pattern(B); p->set_pattern(k & 1 ? A : B);
    { ll::logger g("a", c), h("b", p); std::thread t([&] { for (int i = 0; i < N; i++) put(h, 1, i); }), u; int m = lmc::choose(4); if (m) u = std::thread([&, m] { if (m == 1) { c->flush(); p->flush(); } if (m == 2) c->set_level_color(ll::level::info, col2); if (m == 3) { c->set_pattern(A); } });
      for (int i = 0; i < N; i++) put(g, 0, i); t.join(); if (m) u.join(); c->flush();
      std::string o = slurp(path()); std::set<int> forms = {2}; if (k & 1) forms.insert(0); if (m == 2) forms.insert(3); if (m == 3) forms.insert(0); check(o, {N, N}, forms, "terminal", false);
      for (int i = 0; i < N; i++) { if (m != 3 && (k & 1)) LMC_CHECK(o.find(line("a", mtext(0, i), 0)) == std::string::npos, "a line of the coloured sink is plain: %s", show1(o).c_str()); LMC_CHECK(o.find(line("b", mtext(1, i), k & 1 ? 0 : 2)) != std::string::npos, "a line of the other sink is not as set there: %s", show1(o).c_str()); } }
    fclose(f);
}
// the library's own console types, each pair of one stream
static void console_types() {
    setenv("TERM", "xterm", 1); FILE* f = fopen(path().c_str(), "w"); FILE *o0 = stdout, *e0 = stderr; int k = lmc::choose(2), m = lmc::choose(3), order = lmc::choose(2); S c, p; if (k) stderr = f; else stdout = f;
    auto mkc = [&] { if (k) c = std::make_shared<ll::sinks::stderr_color_sink_mt>(); else c = std::make_shared<ll::sinks::stdout_color_sink_mt>(); c->set_pattern(B); };
    auto mkp = [&] { if (m == 0) { if (k) p = std::make_shared<ll::sinks::stderr_sink_mt>(); else p = std::make_shared<ll::sinks::stdout_sink_mt>(); } else if (m == 1) { if (k) p = std::make_shared<ll::sinks::stderr_color_sink_mt>(); else p = std::make_shared<ll::sinks::stdout_color_sink_mt>(); } else { if (k) p = ll::stderr_logger_mt("x")->sinks()[0]; else p = ll::stdout_logger_mt("x")->sinks()[0]; } p->set_pattern(A); };
    if (order) { mkp(); mkc(); } else { mkc(); mkp(); } if (k) stderr = e0; else stdout = o0;
    { ll::logger g("a", c), h("b", p); std::thread t([&] { put(h, 1, 0); }); put(g, 0, 0); t.join(); c->flush(); } std::string o = slurp(path()), la = line("a", mtext(0, 0), 2) + "\n", lb = line("b", mtext(1, 0), 0) + "\n"; LMC_CHECK(o == la + lb || o == lb + la, "terminal: %s", show1(o).c_str()); lmc::outcome(show1(o)); ll::remove_all(); c.reset(); p.reset(); fclose(f);
}
LMC_SCENARIO(console_real, 3, 6, 0) { console_types(); }
LMC_SCENARIO(console_two, 3, 6, 0) { console(lmc::choose(2), 1); }
LMC_SCENARIO(console_two_each, 2, 4, 0) { console(lmc::choose(2), 2); }
// one sink, several threads through one logger, in colour
LMC_SCENARIO(console_shared, 4, 8, 0) { setenv("TERM", "xterm", 1); FILE* f = fopen(path().c_str(), "w"); { auto c = std::make_shared<Colour>(f); c->set_pattern(B); int m = lmc::choose(2); run(c, 2, 2, m ? std::function<void()>([=] { c->set_level_color(ll::level::info, col2); }) : nullptr); } fclose(f); check(slurp(path()), {2, 2}, {2, 3}, "terminal"); }
// the message object itself is shared by the sinks of one logger: each sees its own colour range
LMC_SCENARIO(both_sinks, 4, 8, 0) { setenv("TERM", "xterm", 1); FILE* f = fopen(path().c_str(), "w"); Buf b; std::ostream os(&b); { auto c = std::make_shared<Colour>(f), c2 = std::make_shared<Colour>(f); c->set_pattern(B); c2->set_pattern(A); auto s = std::make_shared<ll::sinks::ostream_sink_mt>(os); s->set_pattern(B); ll::logger g("a", {c, c2, s}), h("b", {s, c2, c}); std::thread t([&] { put(h, 1, 0); }); put(g, 0, 0); t.join(); } fclose(f); std::string o = slurp(path()); for (int p = 0; p < 2; p++) for (int k : {0, 2}) LMC_CHECK(o.find(line(nm(p), mtext(p, 0), k) + "\n") != std::string::npos, "terminal: %s", show1(o).c_str()); LMC_CHECK(o.size() == line("a", "p0m0", 0).size() * 2 + line("a", "p0m0", 2).size() * 2 + 4, "terminal: %s", show1(o).c_str()); check(b.t, {1, 1}, {1}, "stream"); lmc::outcome(show1(o)); }
// levels of logger and sink change meanwhile: before or after, nothing else
LMC_SCENARIO(levels, 6, 12, 0) {
    Buf b; std::ostream os(&b); auto s = std::make_shared<ll::sinks::ostream_sink_mt>(os); s->set_pattern(A); ll::logger g("a", s); int k = lmc::choose(3); std::thread t([&] { if (k != 1) g.set_log_level(ll::level::warn); if (k != 0) s->set_level(ll::level::error); }); put(g, 0, 0); put(g, 0, 1); t.join(); put(g, 0, 2); g.log(ll::level::critical, ll::fmt_string_view("end"));
    std::string l0 = "a:p0m0\n", l1 = "a:p0m1\n", e = "a:end\n"; LMC_CHECK(b.t == e || b.t == l0 + e || b.t == l0 + l1 + e, "got %s", show1(b.t).c_str()); lmc::outcome(show1(b.t));
}
// several workers write to one sink
template <class Pool> static void async(int k) {
    std::string o; { S s; if (k == 0) s = std::make_shared<ll::sinks::basic_file_sink_mt>(path()); else s = std::make_shared<ll::sinks::rolling_file_sink_mt>(std::string(lmc::scratch()) + "/r.txt", 7, 9); s->set_pattern(A); auto tp = std::make_shared<Pool>(64, 2); auto g = std::make_shared<ll::async_logger>("a", s, tp), h = std::make_shared<ll::async_logger>("b", s, tp); put(*g, 0, 0); put(*h, 1, 0); g->flush(); }
    if (k == 0) o = slurp(path()); else for (int i = 1; i <= 9; i++) { std::string x = slurp(std::string(lmc::scratch()) + "/r_" + std::to_string(i) + ".txt"); if (x == "<missing>") break; LMC_CHECK(x.size() <= 7, "file %d: %s", i, show1(x).c_str()); o += x; } check(o, {1, 1}, {0}, "file");
}
LMC_SCENARIO(async_lock, 1, 2, 0) { async<LockPool>(lmc::choose(2)); }
LMC_SCENARIO(async_conc, 1, 1, 0) { async<ConcPool>(lmc::choose(2)); }
LMC_SCENARIO(async_free, 0, 1, 0) { async<FreePool>(lmc::choose(2)); }
// sinks that have nothing in common, each used by one thread alone from its making to its end: neither notices the other
struct Own { int kind; std::string dir; Buf b; FILE* f = nullptr; std::string want, pre;
    Own(int k, const std::string& d) : kind(k), dir(d) {}
    void go(int p, int n) {
        S s; switch (kind) {
            case 0: s = std::make_shared<ll::sinks::basic_file_sink_st>(dir + "/f.txt", p == 0); break;
            case 1: s = std::make_shared<ll::sinks::rolling_file_sink_st>(dir + "/" + std::string(p ? 3 : 30, 'r') + ".txt", 7, 9); break;
            case 2: s = std::make_shared<ll::sinks::ostream_sink_st>(*new std::ostream(&b)); break;
            case 3: f = fopen((dir + "c").c_str(), "w"); s = std::make_shared<ll::sinks::ansicolor_sink<ll::base::static_nullmutex>>(f); break;
            default: f = fopen((dir + "c").c_str(), "w"); s = std::make_shared<ll::sinks::std_sink<ll::base::static_nullmutex>>(f); }
        s->set_pattern("%n%l%t%^%C%$" "%y%H%G%@:%v"); s->set_pattern(B); ll::logger g(nm(p), s); for (int i = 0; i < n; i++) put(g, p, i); s->flush(); s->set_level(ll::level::warn); put(g, p, 7);
        if (kind == 3) static_cast<ll::sinks::ansicolor_sink<ll::base::static_nullmutex>&>(*s).set_level_color(ll::level::error, "<e>");
    }
    void check(int p, int n) {
        std::string o, w; if (f) fclose(f); if (kind == 0) o = slurp(dir + "/f.txt"); if (kind == 1) for (int i = 1; i < 9; i++) { std::string x = slurp(dir + "/" + std::string(p ? 3 : 30, 'r') + "_" + std::to_string(i) + ".txt"); if (x != "<missing>") o += x; } if (kind == 2) o = b.t; if (kind > 2) o = slurp(dir + "c");
        for (int i = 0; i < n; i++) w += line(nm(p), mtext(p, i), kind == 3 ? 2 : 1) + "\n"; LMC_CHECK(o == w, "sink %d of thread %d: %s, expected %s", kind, p, show1(o).c_str(), show1(w).c_str()); lmc::outcome(show1(o));
    }
};
static void apart(int n) { setenv("TERM", "xterm", 1); std::string d = std::string(lmc::scratch()) + "/d/e"; int k = lmc::choose(5), j = lmc::choose(5); if (j < k) return; Own a(k, d + (lmc::choose(2) ? "/x" : "/y")), b(j, d + "/y"); if (k == 0 && j == 0 && a.dir == b.dir) return; if (a.kind > 2 || b.kind > 2) { mkdir((std::string(lmc::scratch()) + "/d").c_str(), 0755); mkdir(d.c_str(), 0755); if (a.kind > 2 && j > 2 && a.dir == b.dir) return; }
    std::thread t([&] { b.go(1, n); }); a.go(0, n); t.join(); a.check(0, n); b.check(1, n); }
LMC_SCENARIO(apart_one, 1, 3, 0) { apart(1); }
LMC_SCENARIO(apart_two, -1, 2, 0) { apart(2); }
// six missing levels of directories, made by both at once
LMC_SCENARIO(new_directories, 3, 6, 0) { std::string d = std::string(lmc::scratch()) + "/a/b/c/d/e/f"; int k = lmc::choose(2); auto go = [&](int p) { S s; std::string f = d + "/" + nm(p); if (k) s = std::make_shared<ll::sinks::rolling_file_sink_st>(f, 100, 2); else s = std::make_shared<ll::sinks::basic_file_sink_st>(f, true); s->set_pattern(A); ll::logger g(nm(p), s); put(g, p, 0); }; std::thread t([&] { go(1); }); go(0); t.join(); for (int p = 0; p < 2; p++) LMC_CHECK(slurp(d + "/" + nm(p) + (k ? "_1" : "")) == line(nm(p), mtext(p, 0), 0) + "\n", "file of thread %d: %s", p, show1(slurp(d + "/" + nm(p))).c_str()); lmc::outcome(std::to_string(k)); }
// a directive of one sink's pattern logs to another sink of the same kind, which another thread uses too
struct Talk : ll::sinks::custom_flag_formatter { std::shared_ptr<ll::logger> to; std::shared_ptr<int> n; Talk(std::shared_ptr<ll::logger> t, std::shared_ptr<int> k) : to(t), n(k) {} void format(const ll::base::log_msg&, const std::tm&, ll::fmt_memory_buf&) override { int i = (*n)++; put(*to, 0, i); } std::unique_ptr<ll::sinks::custom_flag_formatter> clone() const override { return ll::make_unique<Talk>(to, n); } };
LMC_SCENARIO(talking, 2, 4, 0) {
    int kind = lmc::choose(3); Buf b1, b2; std::ostream o1(&b1), o2(&b2); std::string d = lmc::scratch();
    { auto mk = [&](int i) -> S { std::string f = d + "/" + std::to_string(i); if (kind == 0) return std::make_shared<ll::sinks::ostream_sink_mt>(i ? o2 : o1); if (kind == 1) return std::make_shared<ll::sinks::basic_file_sink_mt>(f); return std::make_shared<ll::sinks::rolling_file_sink_mt>(f, 1000, 1); };
      S s1 = mk(0), s2 = mk(1); s2->set_pattern(A); auto in = std::make_shared<ll::logger>("a", s2); ll::logger g("a", s1), h("b", s2); ll::sinks::pattern_formatter::cust_flag_table t; t['T'] = ll::make_unique<Talk>(in, std::make_shared<int>(0)); g.set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%n%T:%v", "\n", std::move(t)));
      std::thread u([&] { put(h, 1, 0); put(h, 1, 1); }); put(g, 0, 0); put(g, 0, 1); u.join(); }
    auto got = [&](int i) { return kind == 0 ? (i ? b2.t : b1.t) : slurp(d + "/" + std::to_string(i) + (kind == 2 ? "_1" : "")); }; check(got(0), {2}, {0}, "outer sink"); check(got(1), {2, 2}, {0}, "inner sink"); lmc::outcome(show1(got(1)));
}
