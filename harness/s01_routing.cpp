// S01: which messages reach which sinks, through every entry point.
#include "seqlib.h"
#include <sstream>
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
using namespace ll;
struct Want { std::string text; Lv lvl; std::string file; int line; std::string func; long long ns; };
static const source_loc LOC("src.cpp", 12, "fn");
// an argument whose formatting logs itself, or fails
struct Chatty { logger* to; int depth; bool fail; };
template <> struct fmt::formatter<Chatty> {
    constexpr auto parse(fmt::format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <class C> auto format(const Chatty& x, C& c) const -> decltype(c.out()) {
        if (x.depth > 0) { x.to->info("inner {} of {}", x.depth, std::string(x.depth * 100, 'i')); if (x.depth > 1) x.to->log(level::warn, "chatty {}", Chatty{x.to, x.depth - 1, x.fail}); x.to->info("literal"); }
        if (x.fail) throw std::runtime_error("cannot format");
        return fmt::format_to(c.out(), "<{}>", x.depth);
    }
};
// a sink that logs through another logger whenever it is served
struct Echo : RecSink { logger* to = nullptr; void log(const base::log_msg& m) override { if (to) to->info("echo {}", std::string(m.msg.data(), m.msg.size())); RecSink::log(m); if (to) to->error("end {}", 1); } };
// a directive that logs when it is formatted
struct Talking : sinks::custom_flag_formatter { logger* to; explicit Talking(logger* t) : to(t) {} void format(const base::log_msg&, const std::tm&, fmt_memory_buf& b) override { if (to) to->info("flag {}", 3); base::fmt_base::append_string_view("T", b); } std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return learnlog::make_unique<Talking>(to); } };
// one call through entry point e; `lv` is what the message's level is to be (fixed for the named ones)
static const int NMEM = 35, NGLOB = 30;
static Want member(logger& g, int e, Lv lv) {
    Want w{"text", lv, "", 0, "", -1}; std::string s = "string text", f5 = "a{}b{}c"; (void)f5;
    switch (e) {
        case 0: g.log(LOC, lv, "a{}b{}", 1, "x"); w.text = "a1bx"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 1: g.log(lv, "a{}b{}", 1, "x"); w.text = "a1bx"; break;
        case 2: g.log(lv, "text"); break;
        case 3: g.log(lv, s); w.text = s; break;
        case 4: g.log(lv, 42); w.text = "42"; break;
        case 5: g.log(LOC, lv, 4.5); w.text = "4.5"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 6: g.log(sys_clock::time_point(std::chrono::nanoseconds(123456789000LL)), LOC, lv, fmt_string_view("raw {} %v")); w.text = "raw {} %v"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; w.ns = 123456789000LL; break;
        case 7: g.log(LOC, lv, fmt_string_view("raw {")); w.text = "raw {"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 8: g.log(lv, fmt_string_view("raw }")); w.text = "raw }"; break;
        case 9: g.trace("a{}", 7); w.text = "a7"; w.lvl = level::trace; break;
        case 10: g.debug("a{}", 7); w.text = "a7"; w.lvl = level::debug; break;
        case 11: g.info("a{}", 7); w.text = "a7"; w.lvl = level::info; break;
        case 12: g.warn("a{}", 7); w.text = "a7"; w.lvl = level::warn; break;
        case 13: g.error("a{}", 7); w.text = "a7"; w.lvl = level::error; break;
        case 14: g.critical("a{}", 7); w.text = "a7"; w.lvl = level::critical; break;
        case 15: g.trace("text"); w.lvl = level::trace; break;
        case 16: g.debug("text"); w.lvl = level::debug; break;
        case 17: g.info("text"); w.lvl = level::info; break;
        case 18: g.warn("text"); w.lvl = level::warn; break;
        case 19: g.error("text"); w.lvl = level::error; break;
        case 20: g.critical("text"); w.lvl = level::critical; break;
        case 21: g.trace(s); w.text = s; w.lvl = level::trace; break;
        case 22: g.debug(5); w.text = "5"; w.lvl = level::debug; break;
        case 23: g.info('c'); w.text = "c"; w.lvl = level::info; break;
        case 24: g.warn(true); w.text = "true"; w.lvl = level::warn; break;
        case 25: g.error(-3LL); w.text = "-3"; w.lvl = level::error; break;
        case 26: g.critical(s); w.text = s; w.lvl = level::critical; break;
        case 27: g.log(lv, "{:>6}|{:03d}|{}", "ab", 5, std::string(400, 'y')); w.text = "    ab|005|" + std::string(400, 'y'); break;
        case 28: g.log(lv, std::string(1000, 'z')); w.text = std::string(1000, 'z'); break;
        case 29: g.log(lv, ""); w.text = ""; break;
        case 30: g.log(lv, fmt_string_view(std::string("a\0b", 3))); w.text = std::string("a\0b", 3); break;
        case 31: g.log(source_loc{}, lv, "{{}}"); w.text = "{{}}"; break;
        case 32: g.log(LOC, lv, s); w.text = s; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 33: g.log(source_loc("only.cpp", 3), lv, fmt_string_view("x")); w.text = "x"; w.file = "only.cpp"; w.line = 3; break;
        case 34: g.log(LOC, lv, "lit"); w.text = "lit"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
    }
    return w;
}
static Want global(int e, Lv lv) {
    Want w{"text", lv, "", 0, "", -1}; std::string s = "string text";
    switch (e) {
        case 0: ll::log(LOC, lv, "a{}b{}", 1, "x"); w.text = "a1bx"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 1: ll::log(lv, "a{}b{}", 1, "x"); w.text = "a1bx"; break;
        case 2: ll::log(lv, "text"); break;
        case 3: ll::log(lv, s); w.text = s; break;
        case 4: ll::log(lv, 42); w.text = "42"; break;
        case 5: ll::log(LOC, lv, 4.5); w.text = "4.5"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 6: ll::trace("a{}", 7); w.text = "a7"; w.lvl = level::trace; break;
        case 7: ll::debug("a{}", 7); w.text = "a7"; w.lvl = level::debug; break;
        case 8: ll::info("a{}", 7); w.text = "a7"; w.lvl = level::info; break;
        case 9: ll::warn("a{}", 7); w.text = "a7"; w.lvl = level::warn; break;
        case 10: ll::error("a{}", 7); w.text = "a7"; w.lvl = level::error; break;
        case 11: ll::critical("a{}", 7); w.text = "a7"; w.lvl = level::critical; break;
        case 12: ll::trace("text"); w.lvl = level::trace; break;
        case 13: ll::debug("text"); w.lvl = level::debug; break;
        case 14: ll::info("text"); w.lvl = level::info; break;
        case 15: ll::warn("text"); w.lvl = level::warn; break;
        case 16: ll::error("text"); w.lvl = level::error; break;
        case 17: ll::critical("text"); w.lvl = level::critical; break;
        case 18: ll::trace(s); w.text = s; w.lvl = level::trace; break;
        case 19: ll::debug(5); w.text = "5"; w.lvl = level::debug; break;
        case 20: ll::info('c'); w.text = "c"; w.lvl = level::info; break;
        case 21: ll::warn(true); w.text = "true"; w.lvl = level::warn; break;
        case 22: ll::error(-3LL); w.text = "-3"; w.lvl = level::error; break;
        case 23: ll::critical(s); w.text = s; w.lvl = level::critical; break;
        case 24: ll::log(lv, "{:>6}|{:03d}", "ab", 5); w.text = "    ab|005"; break;
        case 25: ll::log(lv, std::string(1000, 'z')); w.text = std::string(1000, 'z'); break;
        case 26: ll::log(LOC, lv, "lit"); w.text = "lit"; w.file = "src.cpp"; w.line = 12; w.func = "fn"; break;
        case 27: ll::info("{} {} {}", 1, 2.5, s); w.text = "1 2.5 string text"; w.lvl = level::info; break;
        case 28: ll::critical("{:x}", 255); w.text = "ff"; w.lvl = level::critical; break;
        case 29: ll::debug("{0}{1}{0}", "p", "q"); w.text = "pqp"; w.lvl = level::debug; break;
    }
    return w;
}
static void expect(RecSink& s, size_t before, bool want, const Want& w, const std::string& name, long long t0, long long t1, const char* what, int e) {
    size_t n = s.recs.size() - before;
    MC_CHECK(n == (want ? 1u : 0u), "%s entry %d: level %d message reached sink %s (level %d) %zu times, expected %d", what, e, (int)w.lvl, s.id.c_str(), (int)s.get_level(), n, (int)want);
    mc::count(1);
    if (!want) return;
    Rec& r = s.recs.back();
    MC_CHECK(r.text == w.text, "%s entry %d: text %s, expected %s", what, e, mc::quote(r.text).c_str(), mc::quote(w.text).c_str());
    MC_CHECK(r.level == w.lvl && r.name == name, "%s entry %d: level %d name %s, expected %d %s", what, e, r.level, r.name.c_str(), (int)w.lvl, name.c_str());
    MC_CHECK(r.file == w.file && r.line == w.line && r.func == w.func, "%s entry %d: location %s:%d %s, expected %s:%d %s", what, e, r.file.c_str(), r.line, r.func.c_str(), w.file.c_str(), w.line, w.func.c_str());
    MC_CHECK(w.ns >= 0 ? r.ns == w.ns : (r.ns >= t0 && r.ns <= t1), "%s entry %d: the message's time is not that of the call", what, e);
}
static std::shared_ptr<RecSink> mk(const char* id, int lv) { auto s = std::make_shared<RecSink>(); s->id = id; s->set_level((Lv)lv); return s; }
// every entry point x logger level x sink levels x message level
MC_SCENARIO(members, 0, 0, 0, 0, 0) {
    int ll_ = mc::choose(7), l1 = mc::choose(7), e = mc::choose(NMEM), bt = mc::choose(2);
    for (int l2 = 0; l2 < 7; l2 += mc::thorough() ? 1 : 3) for (int lv = 0; lv < 7; lv++) {
        auto a = mk("a", l1), b = mk("b", l2); logger g("the name", {a, b}); g.set_log_level((Lv)ll_);
        if (bt) g.enable_backtrace_n(2);
        long long t0 = now_ns(); Want w = member(g, e, (Lv)lv); long long t1 = now_ns();
        expect(*a, 0, w.lvl >= ll_ && w.lvl >= l1, w, "the name", t0, t1, "member", e);
        expect(*b, 0, w.lvl >= ll_ && w.lvl >= l2, w, "the name", t0, t1, "member", e);
        MC_CHECK(a->flushes == 0 && b->flushes == 0, "flushed without a flush level");
    }
    mc::outcome(std::to_string(ll_) + std::to_string(l1) + "/" + std::to_string(e));
}
MC_SCENARIO(globals, 0, 0, 0, 0, 0) {
    int ll_ = mc::choose(7), l1 = mc::choose(7), e = mc::choose(NGLOB);
    auto a = mk("a", l1), other = mk("other", 0); auto g = std::make_shared<logger>("dflt", a), o = std::make_shared<logger>("other", other);
    ll::remove_all(); ll::register_logger(o); ll::set_default_logger(g); g->set_log_level((Lv)ll_);
    MC_CHECK(ll::get_default_logger() == g, "get_default_logger() is not the default logger");
    for (int lv = 0; lv < 7; lv++) { size_t n = a->recs.size(); long long t0 = now_ns(); Want w = global(e, (Lv)lv); long long t1 = now_ns(); expect(*a, n, w.lvl >= ll_ && w.lvl >= l1, w, "dflt", t0, t1, "global", e); }
    MC_CHECK(other->recs.empty(), "a message for the default logger reached another one");
    ll::remove_all();
    mc::outcome(std::to_string(ll_) + std::to_string(l1) + "/" + std::to_string(e));
}
// levels change between messages; several sinks, one of them in two loggers; sinks are served in their order
MC_SCENARIO(changes, 5, 6, 0, 0, 0) {
    static const Lv L[] = {level::trace, level::info, level::error, level::off};
    std::vector<std::string> j; auto a = mk("a", 0), b = mk("b", 2), c = mk("c", 0); for (auto s : {a, b, c}) s->journal = &j;
    logger g1("g1", {a, b}), g2("g2", {b, c}); int gl[2] = {2, 2}, sl[3] = {0, 2, 0}; std::vector<std::string> want;
    for (int i = 0; i < mc::depth(); i++) {
        int o = mc::choose(14);
        if (o < 4) { mc::op("g1 level %d", L[o]); g1.set_log_level(L[o]); gl[0] = L[o]; MC_CHECK(g1.get_log_level() == L[o], "get_log_level()"); }
        else if (o < 8) { mc::op("sink b level %d", L[o - 4]); b->set_level(L[o - 4]); sl[1] = L[o - 4]; MC_CHECK(b->get_level() == L[o - 4], "get_level()"); }
        else {
            int k = (o - 8) / 3; Lv v = L[(o - 8) % 3]; std::string t = "m" + std::to_string(i); mc::op("g%d logs level %d", k + 1, v);
            (k ? g2 : g1).log(v, fmt_string_view(t));
            if (v >= gl[k]) for (int s = k; s < k + 2; s++) if (v >= sl[s]) want.push_back(std::string(1, 'a' + s) + ":" + t);
        }
        MC_CHECK(j == want, "sinks got %s expected %s", join(j).c_str(), join(want).c_str());
    }
    mc::outcome(join(want));
}
// number of sinks: none to four, the same sink twice
MC_SCENARIO(sink_sets, 0, 0, 0, 0, 0) {
    int n = mc::choose(5), how = mc::choose(3); std::vector<std::string> j, want; std::vector<sink_shr_ptr> v; bool twice = n > 1 && mc::choose(2);
    for (int i = 0; i < n; i++) { auto s = mk(std::to_string(i).c_str(), 0); s->journal = &j; v.push_back(s); } if (twice) v[n - 1] = v[0];
    std::shared_ptr<logger> g; if (how == 0) g = std::make_shared<logger>("g", v.begin(), v.end()); else if (how == 1) { g = std::make_shared<logger>("g"); g->sinks() = v; } else { g = std::make_shared<logger>("g"); for (auto& s : v) g->sinks().push_back(s); }
    g->info("one"); g->flush(); g->error("two");
    for (const char* t : {"one", "flush", "two"}) for (auto& s : v) want.push_back(static_cast<RecSink*>(s.get())->id + ":" + t);
    MC_CHECK(j == want, "sinks got %s expected %s", join(j).c_str(), join(want).c_str());
    mc::outcome(join(want));
}
// hundreds of sinks, each with a level of its own
MC_SCENARIO(many_sinks, 0, 0, 0, 0, 0) {
    static const int N[] = {5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}; int n = N[mc::choose(18)], lv = mc::choose(7), odd = mc::choose(3); std::vector<std::string> j, want; std::vector<sink_shr_ptr> v;
    for (int i = 0; i < n; i++) { auto s = mk(std::to_string(i).c_str(), odd == 0 ? 0 : odd == 1 ? i % 7 : i == n - 1 ? 0 : 6); s->journal = &j; if (s->get_level() <= lv) want.push_back(s->id + ":one"); v.push_back(s); }
    logger g("g", v.begin(), v.end()); g.set_log_level(level::trace); g.log((Lv)lv, "one"); for (auto& s : v) want.push_back(static_cast<RecSink*>(s.get())->id + ":flush"); g.flush();
    MC_CHECK(j == want, "%d sinks: got %s expected %s", n, join(j).substr(0, 300).c_str(), join(want).substr(0, 300).c_str()); mc::outcome(std::to_string(n) + "/" + std::to_string(lv));
}
// texts, names and lines of any length
MC_SCENARIO(sizes, 0, 0, 0, 0, 0) {
    static const size_t N[] = {0, 1, 249, 250, 251, 255, 256, 257, 499, 500, 501, 511, 512, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, 17 << 20}; size_t n = N[mc::choose(26)]; int form = mc::choose(5); std::string name(mc::choose(2) ? 70000 : 3, 'n'), t(n, 'x'), e = t; for (size_t i = 0; i < n; i += 61) e[i] = t[i] = (char)('0' + i % 10);
    static const int LN[] = {1, 32767, 32768, 65535, 65536, 2147483647}; int line = LN[mc::choose(6)]; auto a = mk("a", 0), b = mk("b", 0); logger g(name, {a, b}); std::string file(n < 5000 ? n : 5000, 'f'); source_loc loc(file.c_str(), line, name.c_str());
    switch (form) { case 0: g.log(loc, level::info, fmt_string_view(t)); break; case 1: g.log(loc, level::info, "{}", t); break; case 2: g.log(loc, level::info, t); break; case 3: g.log(loc, level::info, "{}{}", t.substr(0, n / 2), t.substr(n / 2)); break; default: g.log(loc, level::info, "{:>{}}|{}", "r", n + 1, t); e = std::string(n, ' ') + "r|" + t; }
    for (auto& s : {a, b}) { MC_CHECK(s->recs.size() == 1, "%zu messages", s->recs.size()); auto& r = s->recs[0]; MC_CHECK(r.text == e && r.name == name && r.line == line && r.file == file && r.func == name, "form %d: text of %zu bytes (expected %zu), name of %zu, line %d (%d), file of %zu, function of %zu", form, r.text.size(), e.size(), r.name.size(), r.line, line, r.file.size(), r.func.size()); }
    mc::outcome(std::to_string(n) + "/" + std::to_string(form));
}
// a message that cannot be formatted is reported, reaches no sink, and disturbs nothing after it
MC_SCENARIO(bad_format, 3, 4, 0, 0, 0) {
    auto a = mk("a", 0); logger g("g", a); g.set_log_level(level::debug); size_t want = 0; int reports = 0; Err err;
    for (int i = 0; i < mc::depth(); i++) {
        int o = mc::choose(6);
        try { switch (o) {
            case 0: mc::op("info ok"); g.info("fine {}", 1); want++; break;
            case 1: mc::op("missing argument"); g.info("{} {}", 1); reports++; break;
            case 2: mc::op("bad spec"); g.error("{:d}", "text"); reports++; break;
            case 3: mc::op("unbalanced"); g.log(level::warn, "{", 1); reports++; break;
            case 4: mc::op("filtered bad format"); g.trace("{} {}", 1); break;
            case 5: mc::op("unbalanced with location"); g.log(LOC, level::warn, "}", 1); reports++; break; } }
        catch (...) { mc::fail("an exception left a logging call"); }
        MC_CHECK(a->recs.size() == want, "%zu messages reached the sink, expected %zu", a->recs.size(), want);
    }
    MC_CHECK(err.reports() == reports, "%d reports on stderr, expected %d", err.reports(), reports);
    mc::outcome(std::to_string(want) + "/" + std::to_string(reports));
}

// logging from inside logging: the formatting of an argument, a sink or a directive logs too; nothing is mixed up
MC_SCENARIO(nested, 0, 0, 0, 0, 0) {
    int depth = mc::choose(4), same = mc::choose(2), fail = mc::choose(2), echo = mc::choose(2), len = mc::choose(3), lit = mc::choose(2); Err err; std::vector<std::string> j, want;
    auto a = std::make_shared<Echo>(); auto b = mk("b", 0), c = mk("c", 0); a->id = "a"; a->journal = b->journal = c->journal = &j; logger g("g", a), in("in", b), e("e", c); if (echo) a->to = &e; logger* to = same ? &g : &in;
    std::function<void(logger*, const std::string&)> put = [&](logger* l, const std::string& t) { if (l == &g && echo) want.push_back("c:echo " + t); want.push_back((l == &g ? "a:" : l == &e ? "c:" : "b:") + t); if (l == &g && echo) want.push_back("c:end 1"); };
    std::function<std::string(int)> fmtd = [&](int d) { if (d > 0) { put(to, "inner " + std::to_string(d) + " of " + std::string(d * 100, 'i')); if (d > 1) { std::string t = fmtd(d - 1); if (!fail) put(to, "chatty " + t); } put(to, "literal"); } return "<" + std::to_string(d) + ">"; };
    std::string pre(len * 200, 'x'); int n = 5;
    try { if (lit) g.warn("first {}", 1); g.info("{}{}|{}", pre, Chatty{to, depth, (bool)fail}, n); g.info("last {}", pre); } catch (...) { mc::fail("an exception left a logging call"); }
    if (lit) put(&g, "first 1"); { std::string t = fmtd(depth); if (!fail) put(&g, pre + t + "|5"); } put(&g, "last " + pre);
    MC_CHECK(j == want, "sinks got %s expected %s", join(j).c_str(), join(want).c_str());
    MC_CHECK(err.reports() == (fail ? std::max(depth, 1) : 0), "%d reports on stderr", err.reports());
    mc::outcome(join(want));
}
// the same between two sinks of one kind
MC_SCENARIO(talking_kinds, 0, 0, 0, 0, 0) {
    std::ostringstream o1, o2; std::string d = mc::scratch(); int kind = mc::choose(6), n = mc::choose(3), big = mc::choose(2); Err err;
    auto mks = [&](int i) -> sink_shr_ptr { std::string f = d + "/f" + std::to_string(i); std::ostringstream& o = i ? o2 : o1; switch (kind) { case 0: return std::make_shared<sinks::ostream_sink_mt>(o); case 1: return std::make_shared<sinks::ostream_sink_st>(o); case 2: return std::make_shared<sinks::basic_file_sink_mt>(f); case 3: return std::make_shared<sinks::basic_file_sink_st>(f); case 4: return std::make_shared<sinks::rolling_file_sink_mt>(f, 300, 5); default: return std::make_shared<sinks::rolling_file_sink_st>(f, 300, 5); } };
    auto got = [&](int i) { if (kind < 2) return (i ? o2 : o1).str(); std::string f = d + "/f" + std::to_string(i); if (kind < 4) return slurp(f); std::string t; for (int k = 1; k <= 5 && exists(f + "_" + std::to_string(k)); k++) t += slurp(f + "_" + std::to_string(k)); return t; };
    logger in("in", mks(1)), g("g", mks(0)); in.set_pattern("%n|%l|%v|"); sinks::pattern_formatter::cust_flag_table t; t['T'] = learnlog::make_unique<Talking>(&in); g.set_formatter(learnlog::make_unique<sinks::pattern_formatter>(n == 0 ? "%T %v" : n == 1 ? "%v%T" : "%n%T%v%T", "\n", std::move(t)));
    std::string z(big ? 600 : 60, 'z'), w0, w1; for (auto& x : {std::string("a1b"), z, std::string("c")}) { g.warn("{}", x); w0 += n == 0 ? "T " + x + "\n" : n == 1 ? x + "T\n" : "gT" + x + "T\n"; for (int k = 0; k < (n == 2 ? 2 : 1); k++) w1 += "in|info|flag 3|\n"; }
    g.flush(); in.flush(); MC_CHECK(got(0) == w0, "outer: %s", mc::quote(got(0)).c_str()); MC_CHECK(got(1) == w1, "inner: %s", mc::quote(got(1)).c_str()); MC_CHECK(err.reports() == 0, "reported: %s", err.text().c_str()); mc::outcome(std::to_string(kind * 10 + n));
}
MC_SCENARIO(talking_pattern, 0, 0, 0, 0, 0) {
    std::ostringstream o; auto s = std::make_shared<sinks::ostream_sink_mt>(o); auto b = mk("b", 0); logger in("in", b), g("g", s); int n = mc::choose(3);
    sinks::pattern_formatter::cust_flag_table t; t['T'] = learnlog::make_unique<Talking>(&in); g.set_formatter(learnlog::make_unique<sinks::pattern_formatter>(n == 0 ? "%T %v" : n == 1 ? "%v%T" : "%T%v%T", "\n", std::move(t)));
    g.info("a{}b", 1); g.warn("{}", std::string(600, 'z')); std::string z(600, 'z');
    MC_CHECK(o.str() == (n == 0 ? "T a1b\nT " + z + "\n" : n == 1 ? "a1bT\n" + z + "T\n" : "Ta1bT\nT" + z + "T\n"), "written: %s", mc::quote(o.str()).c_str());
    MC_CHECK(b->recs.size() == (n == 2 ? 4u : 2u), "%zu inner messages", b->recs.size()); for (auto& r : b->recs) MC_CHECK(r.text == "flag 3", "inner message %s", r.text.c_str());
    mc::outcome(std::to_string(n));
}
