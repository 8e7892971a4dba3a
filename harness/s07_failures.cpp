// S07: a failure inside logging stays inside: it is reported on stderr, no exception reaches the caller, other sinks and
// other messages are not affected, and when its cause is gone everything works again.
#include "seqlib.h"
#include "nosleep.h"
#include "sysfault.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/basic_file_sink.h"
#include "sinks/ostream_sink.h"
#include "logger.h"
#include <sstream>
// reports: "[*** EXCEPTION #nnnn ***] [date] text", numbered without gaps
static void well_formed(const std::string& t, int n, long& last) {
    size_t p = 0; int k = 0; while ((p = t.find("[*** EXCEPTION #", p)) != std::string::npos) { long no = strtol(t.c_str() + p + 16, nullptr, 10); MC_CHECK(no > 0 && (last == 0 || no == last + 1), "report %ld after report %ld", no, last); last = no; k++;
        unsigned Y, Mo, D, h, mi, s; int used = 0; MC_CHECK(sscanf(t.c_str() + p, "[*** EXCEPTION #%*d ***] [%4u-%2u-%2u %2u:%2u:%2u]%n", &Y, &Mo, &D, &h, &mi, &s, &used) == 6 && used > 0, "report %s", mc::quote(t.substr(p, 100)).c_str()); p++; }
    MC_CHECK(k == n, "%d reports, %d failures: %s", k, n, mc::quote(t.substr(0, 600)).c_str());
}
// three sinks, any of which throws from writing or flushing, changing over time
MC_SCENARIO(sinks, 3, 4, 0, 0, 0) {
    std::vector<std::shared_ptr<RecSink>> s; for (int i = 0; i < 3; i++) { s.push_back(std::make_shared<RecSink>()); s[i]->id = std::string(1, 'a' + i); }
    ll::logger g("n", {s[0], s[1], s[2]}); g.set_flush_level(ll::level::error); g.enable_backtrace_n(2); Err err; long last = 0; std::vector<std::string> want[3]; int fl[3] = {}; std::vector<std::string> tr;
    for (int i = 0; i < mc::depth(); i++) {
        int failing = mc::choose(4), how = 1 + mc::choose(3), k = mc::choose(5), exp = 0; for (int j = 0; j < 3; j++) s[j]->bad = j == failing ? how : 0; err.mark(); std::string t = "m" + std::to_string(i); static const char* const K[] = {"log", "log an error", "flush", "log something that cannot be formatted", "dump the backtrace"}; mc::op("sink %d fails (%d): %s", failing, how, K[k]);
        try {
            if (k == 0) g.warn("{}", t); else if (k == 1) g.error("{}", t); else if (k == 2) g.flush(); else if (k == 3) g.warn("{} {}", t); else g.dump_backtrace();
        } catch (...) { mc::fail("the call threw"); }
        auto write = [&](const std::string& x) { for (int j = 0; j < 3; j++) if (s[j]->bad & 1) exp++; else want[j].push_back(x); };
        if (k < 2) { write(t); tr.push_back(t); if (tr.size() > 2) tr.erase(tr.begin()); }
        if (k == 4) { write("*********************** Backtrace Start ***********************"); std::vector<std::string> q; q.swap(tr); for (auto& x : q) { write(x); if (x[0] == 'm') {} } write("************************ Backtrace End ************************"); }
        if (k == 1 || k == 2) for (int j = 0; j < 3; j++) if (s[j]->bad & 2) exp++; else fl[j]++;
        if (k == 3) exp++;
        if (k == 4) { for (int j = 0; j < 3; j++) fl[j] = s[j]->flushes; exp = -1; }       // a dumped error may flush
        for (int j = 0; j < 3; j++) { MC_CHECK(s[j]->recs.size() == want[j].size(), "sink %d got %zu messages, expected %zu", j, s[j]->recs.size(), want[j].size()); for (size_t q = 0; q < want[j].size(); q++) MC_CHECK(s[j]->recs[q].text == want[j][q], "sink %d got %s, expected %s", j, s[j]->recs[q].text.c_str(), want[j][q].c_str()); MC_CHECK(s[j]->flushes == fl[j], "sink %d was flushed %d times, expected %d", j, s[j]->flushes, fl[j]); }
        std::string t2 = err.text(); if (exp < 0) { exp = 0; size_t p = 0; while ((p = t2.find("[*** EXCEPTION #", p)) != std::string::npos) { exp++; p++; } MC_CHECK(failing == 3 || !(how & 1) || exp > 0, "a dump failed silently"); }
        well_formed(t2, exp, last); if (failing < 3 && exp && k < 3) MC_CHECK(err.has(s[failing]->id + (((how & 1) && k < 2) ? " log failure" : " flush failure")), "the report does not say what failed: %s", t2.c_str());
    }
    mc::outcome(std::to_string(want[0].size()) + std::to_string(want[1].size()) + std::to_string(want[2].size()));
}
// flushing or closing everything, and running something on every logger, with a failing sink in the first, second or third logger
MC_SCENARIO(everything, 0, 0, 0, 0, mc::F_FORK) {
    std::vector<std::shared_ptr<RecSink>> s; for (int i = 0; i < 3; i++) { s.push_back(std::make_shared<RecSink>()); s[i]->id = std::string(1, 'a' + i); ll::initialize_logger(std::make_shared<ll::logger>(s[i]->id, s[i])); }
    int f = mc::choose(3), k = mc::choose(3); s[f]->bad = 3; Err err;
    try { if (k == 0) ll::flush_all(); else if (k == 1) for (int i = 0; i < 3; i++) ll::get_logger(s[i]->id)->info("x"); else { ll::set_default_logger(ll::get_logger("b")); ll::info("x"); ll::flush_all(); } } catch (...) { mc::fail("threw"); }
    for (int i = 0; i < 3; i++) if (i != f) { MC_CHECK(k == 1 || s[i]->flushes == 1, "logger %d was not flushed", i); MC_CHECK(k != 1 || s[i]->recs.size() == 1, "logger %d did not log", i); }
    MC_CHECK(err.reports() == (k == 2 && f == 1 ? 2 : 1), "reports: %s", err.text().c_str()); s[f]->bad = 0; ll::get_logger(s[f]->id)->info("y"); MC_CHECK(!s[f]->recs.empty() && s[f]->recs.back().text == "y", "after the failure"); mc::outcome(std::to_string(f * 3 + k));
}
// a formatter that fails for some messages, in the sink and as a custom directive
struct BadFlag : ll::sinks::custom_flag_formatter { void format(const ll::base::log_msg& m, const std::tm&, ll::fmt_memory_buf& b) override { std::string t(m.msg.data(), m.msg.size()); if (t == "bad") throw std::runtime_error("flag failure"); ll::base::fmt_base::append_string_view("*", b); } std::unique_ptr<custom_flag_formatter> clone() const override { return std::unique_ptr<custom_flag_formatter>(new BadFlag); } };
struct BadFmt : ll::sinks::formatter { void format(const ll::base::log_msg& m, ll::fmt_memory_buf& b) override { ll::base::fmt_base::append_string_view(m.msg, b); std::string t(m.msg.data(), m.msg.size()); if (t == "bad") throw std::runtime_error("format failure"); ll::base::fmt_base::append_string_view("\n", b); } ll::formatter_uni_ptr clone() const override { return ll::formatter_uni_ptr(new BadFmt); } };
MC_SCENARIO(formatters, 4, 6, 0, 0, 0) {
    std::string f = std::string(mc::scratch()) + "/f"; std::ostringstream os; auto a = std::make_shared<ll::sinks::ostream_sink_mt>(os); auto b = std::make_shared<ll::sinks::basic_file_sink_mt>(f); auto c = std::make_shared<RecSink>(); int kind = mc::choose(2); long last = 0;
    auto mk = [&]() -> ll::formatter_uni_ptr { if (kind) return ll::formatter_uni_ptr(new BadFmt); auto p = ll::make_unique<ll::sinks::pattern_formatter>("%v"); p->add_custom_flag<BadFlag>('Q'); p->set_pattern("%v%Q"); return std::move(p); };
    a->set_formatter(mk()); b->set_formatter(mk()); std::string want, e = kind ? "" : "*"; ll::logger g("n", {a, b, c}); Err err; size_t n = 0;
    for (int i = 0; i < mc::depth(); i++) { int bad = mc::choose(2); err.mark(); mc::op("%s", bad ? "bad" : "good"); try { if (bad) g.info("bad"); else { g.info("m{}", i); want += "m" + std::to_string(i) + e + "\n"; } } catch (...) { mc::fail("the call threw"); } n++; g.flush();
        well_formed(err.text(), bad ? 2 : 0, last); MC_CHECK(os.str() == want, "stream sink wrote %s, expected %s", mc::quote(os.str()).c_str(), mc::quote(want).c_str()); MC_CHECK(slurp(f) == want, "file sink wrote %s, expected %s", mc::quote(slurp(f)).c_str(), mc::quote(want).c_str()); MC_CHECK(c->recs.size() == n, "the third sink got %zu of %zu messages", c->recs.size(), n); }
    mc::outcome(std::to_string(want.size()));
}
// what a report says is all there, whatever its length and bytes; and whatever is thrown is reported
struct Thrower : ll::sinks::sink { int kind = 0; std::string what; int n = 0;
    void go() { n++; switch (kind) { case 0: throw std::runtime_error(what); case 1: throw std::logic_error(what); case 2: throw ll::learnlog_excpt(what); case 3: throw ll::learnlog_excpt(what, ENOENT); case 4: throw ll::learnlog_excpt(what, EIO, ll::source_loc("f.cpp", 70000, "fn")); case 5: throw std::bad_alloc(); } }
    void log(const ll::base::log_msg&) override { go(); } void flush() override { go(); } void set_pattern(const std::string&) override {} void set_formatter(ll::formatter_uni_ptr) override {} };
MC_SCENARIO(reports, 0, 0, 0, 0, 0) {
    static const size_t N[] = {0, 1, 2, 15, 16, 63, 64, 99, 100, 127, 128, 249, 250, 255, 256, 257, 499, 500, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536, 70000}; auto t = std::make_shared<Thrower>(); size_t n = N[mc::choose(30)]; t->kind = mc::choose(6); int byte = mc::choose(4), op = mc::choose(3); t->what = std::string(n, byte == 0 ? 'x' : byte == 1 ? '%' : byte == 2 ? '{' : '\xe9'); if (n > 2) { t->what[0] = '<'; t->what[n - 1] = '>'; } auto r = std::make_shared<RecSink>(); ll::logger g("n", {t, r}); Err err; long last = 0;
    try { if (op == 0) g.info("text"); else if (op == 1) g.flush(); else { g.set_flush_level(ll::level::info); g.info("text"); } } catch (...) { mc::fail("the call threw"); }
    well_formed(err.text(), op == 2 ? 2 : 1, last); MC_CHECK(t->n == (op == 2 ? 2 : 1) && r->recs.size() == (op != 1) && r->flushes == (op != 0), "the other sink: %zu messages, %d flushes", r->recs.size(), r->flushes); if (t->kind < 5) MC_CHECK(err.has(t->what), "the report of %zu bytes does not contain the %zu bytes of the failure's text", err.text().size(), n); if (t->kind == 4) MC_CHECK(err.has("f.cpp:70000") && err.has(strerror(EIO)), "the report lacks the place or the cause"); if (t->kind == 3) MC_CHECK(err.has(strerror(ENOENT)), "the report lacks the cause"); mc::outcome(std::to_string(n) + "/" + std::to_string(t->kind));
}
// file system calls of a file sink fail
static int g_op; static std::string g_cause;
static sf::Ans fail_policy(const sf::Ev& e) {
    int k = mc::deviate(e.call == sf::WRITE && e.len > 1 ? 3 : 2); if (!k) return {sf::Ans::OK, 0, 0};
    if (k == 2) { mc::op("write of %zu bytes: one is written", e.len); return {sf::Ans::SHORT, 0, 1}; }
    g_op++; mc::op("%s fails", sf::NAME[e.call]); int no = e.call == sf::WRITE ? ENOSPC : EIO; g_cause = strerror(no); return {sf::Ans::ERR, no, 0};
}
MC_SCENARIO(file_calls, 4, 5, 1, 2, mc::F_FORK) {
    std::string d = mc::scratch(), f = d + "/log.txt"; int where = mc::choose(2); sf::begin(d, [](const sf::Ev&) { return sf::Ans{sf::Ans::OK, 0, 0}; }); auto s = std::make_shared<ll::sinks::basic_file_sink_mt>(f, true); s->set_pattern("%v"); auto r = std::make_shared<RecSink>();
    std::unique_ptr<ll::logger> g; if (where) g.reset(new ll::logger("n", {r, s})); else g.reset(new ll::logger("n", {s, r})); g->set_flush_level(ll::level::error); Err err; sf::policy(fail_policy);
    size_t n = 0, since = 0; bool any = false; std::vector<std::string> lines; int D = mc::depth();
    for (int i = 0; i <= D; i++) {
        int k = i == D ? 1 : mc::choose(4); std::string t = "m" + std::to_string(i) + std::string(k == 3 ? 4090 : 2, 'x'); err.mark(); g_op = 0; static const char* const K[] = {"log", "log an error", "flush", "log 4092 bytes"}; mc::op("%s", K[k]);
        try { if (k == 2) g->flush(); else { lines.push_back(t + "\n"); n++; if (k == 1) g->error(ll::fmt_string_view(t)); else g->info(ll::fmt_string_view(t)); } } catch (...) { mc::fail("the call threw"); }
        MC_CHECK(r->recs.size() == n, "the other sink got %zu of %zu messages", r->recs.size(), n);
        if (g_op) { any = true; since = lines.size(); MC_CHECK(err.reports() >= 1, "a failed call was not reported"); MC_CHECK(err.has(f), "the report does not name the file: %s", err.text().c_str()); MC_CHECK(err.has(g_cause), "the report lacks the cause (%s): %s", g_cause.c_str(), err.text().c_str()); } else MC_CHECK(err.reports() == 0, "nothing failed, but was reported: %s", err.text().c_str());
    }
    err.mark(); g_op = 0; try { g.reset(); s.reset(); } catch (...) { mc::fail("closing threw"); } sf::end(); if (g_op) MC_CHECK(err.reports() >= 1, "a failed call while closing was not reported"); if (g_op) MC_CHECK(err.has(g_cause), "the report of closing lacks the cause (%s): %s", g_cause.c_str(), err.text().c_str());
    std::string t = slurp(f), tail, want; for (size_t i = 0; i < lines.size(); i++) { want += lines[i]; if (i >= since) tail += lines[i]; }
    if (!any) MC_CHECK(t == want, "the file holds %s", mc::quote(t.substr(0, 300)).c_str()); else MC_CHECK(t.size() >= tail.size() && t.compare(t.size() - tail.size(), tail.size(), tail) == 0, "after the failure %zu messages were logged and flushed, but the file ends %s", lines.size() - since, mc::quote(t.size() > 300 ? t.substr(t.size() - 300) : t).c_str());
    mc::outcome(std::to_string(any) + std::to_string(t.size()));
}
// the same for the sinks of standard streams, whatever the stream leads to
static bool g_tty; extern "C" int isatty(int) { return g_tty; }
static std::string plain(const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\033') { while (i < t.size() && t[i] != 'm') i++; } else r += t[i]; return r; }
template <class S> static void console(bool each, bool tty = false, bool unbuffered = false) {
    std::string d = mc::scratch(), f = d + "/out.txt"; int where = mc::choose(2); sf::begin(d, [](const sf::Ev&) { return sf::Ans{sf::Ans::OK, 0, 0}; }); FILE* fp = fdopen(::open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644), "a"); if (unbuffered) setvbuf(fp, nullptr, _IONBF, 0); if (tty) { setenv("TERM", "xterm", 1); setenv("COLORTERM", "truecolor", 1); } g_tty = tty; auto s = std::make_shared<S>(fp); g_tty = false; s->set_pattern(tty ? "%^%v%$" : "%v"); auto r = std::make_shared<RecSink>();
    std::unique_ptr<ll::logger> g; if (where) g.reset(new ll::logger("n", {r, s})); else g.reset(new ll::logger("n", {s, r})); g->set_flush_level(ll::level::error); Err err; sf::policy(fail_policy);
    size_t n = 0, since = 0; bool any = false; std::vector<std::string> lines; int D = mc::depth();
    for (int i = 0; i <= D; i++) {
        int k = i == D ? 1 : mc::choose(4); std::string t = "m" + std::to_string(i) + std::string(k == 3 ? 4090 : 2, 'x'); err.mark(); g_op = 0; static const char* const K[] = {"log", "log an error", "flush", "log 4092 bytes"}; mc::op("%s", K[k]);
        try { if (k == 2) g->flush(); else { lines.push_back(t + "\n"); n++; if (k == 1) g->error(ll::fmt_string_view(t)); else g->info(ll::fmt_string_view(t)); } } catch (...) { mc::fail("the call threw"); }
        MC_CHECK(r->recs.size() == n, "the other sink got %zu of %zu messages", r->recs.size(), n);
        if (g_op) { any = true; since = lines.size(); MC_CHECK(err.reports() >= 1, "a failed call was not reported"); MC_CHECK(err.has(g_cause), "the report lacks the cause (%s): %s", g_cause.c_str(), err.text().c_str()); } else { MC_CHECK(err.reports() == 0, "nothing failed, but was reported: %s", err.text().c_str()); if (each && k != 2) { sf::policy([](const sf::Ev&) { return sf::Ans{sf::Ans::OK, 0, 0}; }); std::string c = tty ? plain(slurp(f)) : slurp(f); sf::policy(fail_policy); MC_CHECK(c.size() >= lines.back().size() && c.compare(c.size() - lines.back().size(), lines.back().size(), lines.back()) == 0, "the message is not visible when the call returns"); } }
    }
    sf::end(); g.reset(); s.reset(); fclose(fp);
    std::string t = slurp(f), tail, want; if (tty) { MC_CHECK(any || t.find('\033') != std::string::npos, "no colours"); t = plain(t); } for (size_t i = 0; i < lines.size(); i++) { want += lines[i]; if (i >= since) tail += lines[i]; }
    if (!any) MC_CHECK(t == want, "the stream got %s", mc::quote(t.substr(0, 300)).c_str()); else MC_CHECK(t.size() >= tail.size() && t.compare(t.size() - tail.size(), tail.size(), tail) == 0, "after the failure %zu messages were logged and flushed, but the stream ends %s", lines.size() - since, mc::quote(t.size() > 300 ? t.substr(t.size() - 300) : t).c_str());
    mc::outcome(std::to_string(any) + std::to_string(t.size()));
}
MC_SCENARIO(console_plain, 3, 5, 1, 2, mc::F_FORK) { console<ll::sinks::std_sink<ll::base::static_mutex>>(true); }
MC_SCENARIO(console_colour, 3, 5, 1, 2, mc::F_FORK) { console<ll::sinks::ansicolor_sink<ll::base::static_mutex>>(false); }
MC_SCENARIO(console_terminal, 3, 5, 1, 2, mc::F_FORK) { console<ll::sinks::ansicolor_sink<ll::base::static_mutex>>(false, true); }
MC_SCENARIO(console_unbuffered, 3, 5, 1, 2, mc::F_FORK) { console<ll::sinks::ansicolor_sink<ll::base::static_mutex>>(true, true, true); }
// a file that cannot be opened: the creator is told, nothing is registered, and the name and the path can be used once they can
MC_SCENARIO(open_fails, 0, 0, 0, 0, mc::F_FORK) {
    std::string d = mc::scratch(); spit(d + "/plain", "x"); mkdir((d + "/dir").c_str(), 0755); int k = mc::choose(3), trunc = mc::choose(2); std::string f = k == 0 ? d + "/plain/log.txt" : k == 1 ? d + "/dir" : d + "/plain/a/b/log.txt"; bool threw = false; std::string what; Err err;
    try { ll::basic_file_logger_mt("n", f, trunc); } catch (const std::exception& e) { threw = true; what = e.what(); } MC_CHECK(threw, "created a logger on %s", f.c_str()); MC_CHECK(what.find(f) != std::string::npos, "the error does not name the file: %s", what.c_str()); MC_CHECK(what.find(strerror(k == 1 ? EISDIR : ENOTDIR)) != std::string::npos, "the error lacks the cause: %s", what.c_str()); MC_CHECK(!ll::get_logger("n"), "registered");
    MC_CHECK(slurp(d + "/plain") == "x", "plain file changed"); if (k == 1) rmdir(f.c_str()); else unlink((d + "/plain").c_str()); auto g = ll::basic_file_logger_mt("n", f, trunc); g->set_pattern("%v"); g->info("ok"); g->flush(); MC_CHECK(slurp(f) == "ok\n", "file %s", slurp(f).c_str()); mc::outcome(std::to_string(k));
}
// an output stream that goes bad and is cleared
struct Buf : std::streambuf { std::string s; int fail; Buf() : fail(0) {} int overflow(int c) override { if (fail == 1) throw std::runtime_error("stream failure"); if (fail) return traits_type::eof(); s += (char)c; return c; } std::streamsize xsputn(const char* p, std::streamsize n) override { if (fail == 1) throw std::runtime_error("stream failure"); if (fail) return 0; s.append(p, n); return n; } int sync() override { if (fail == 1) throw std::runtime_error("stream failure"); return fail ? -1 : 0; } };
MC_SCENARIO(streams, 4, 5, 0, 0, 0) {
    Buf b; std::ostream os(&b); bool exc = mc::choose(2); if (exc) os.exceptions(std::ios::badbit | std::ios::failbit); auto s = std::make_shared<ll::sinks::ostream_sink_mt>(os, mc::choose(2)); s->set_pattern("%v"); auto r = std::make_shared<RecSink>(); ll::logger g("n", {s, r}); std::string want; size_t n = 0; Err err;
    for (int i = 0; i < mc::depth(); i++) { b.fail = mc::choose(3); int k = mc::choose(2); err.mark(); mc::op("stream state %d, %s", b.fail, k ? "log" : "flush"); try { if (k) { g.info("m{}", i); n++; if (!b.fail) want += "m" + std::to_string(i) + "\n"; } else g.flush(); } catch (...) { mc::fail("the call threw"); } if (b.fail && exc) MC_CHECK(err.reports() > 0, "not reported"); MC_CHECK(r->recs.size() == n, "the other sink got %zu of %zu messages", r->recs.size(), n); MC_CHECK(b.s == want, "stream got %s, expected %s", mc::quote(b.s).c_str(), mc::quote(want).c_str()); b.fail = 0; os.clear(); }
    mc::outcome(want);
}
