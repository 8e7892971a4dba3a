// S06: a file sink's file holds what was there (or nothing, if it was to be emptied), then every message in order; nothing
// anyone wrote is lost, and what was flushed is there even if the process ends at any point afterwards.
#include "seqlib.h"
#include "nosleep.h"
#include "sysfault.h"
#include "sinks/basic_file_sink.h"
#include "logger.h"
typedef ll::sinks::basic_file_sink_mt Mt; typedef ll::sinks::basic_file_sink_st St;
static std::string text(int i, size_t len) { std::string s; while (s.size() < len) s += (char)('a' + (i + s.size()) % 26); return s; }
// disk is: a base everybody agrees on, followed by a beginning of what is still buffered
struct Model {
    std::string path, disk, buf;      // on disk for certain; perhaps still buffered
    void check(bool exact) {
        std::string t = slurp(path), all = disk + buf;
        MC_CHECK(t.size() >= disk.size() && t.size() <= all.size() && all.compare(0, t.size(), t) == 0, "the file contains %s, expected %s and then a beginning of %s", mc::quote(t.substr(0, 400)).c_str(), mc::quote(disk.substr(0, 400)).c_str(), mc::quote(buf.substr(0, 400)).c_str());
        if (exact) MC_CHECK(t == all, "after a flush or close the file contains %zu bytes %s, expected %zu bytes %s", t.size(), mc::quote(t.substr(0, 400)).c_str(), all.size(), mc::quote(all.substr(0, 400)).c_str());
    }
    void sync() { check(true); disk += buf; buf.clear(); }
};
static void history(std::vector<size_t> lens, int depth) {
    std::string d = std::string(mc::scratch()) + "/d"; Model m; m.path = d + "/log.txt"; int old = mc::choose(3); bool st = mc::choose(2);
    if (old) { mkdir(d.c_str(), 0755); if (old == 2) { spit(m.path, "old\n"); m.disk = "old\n"; } }
    std::shared_ptr<ll::sinks::sink> s; std::unique_ptr<ll::logger> g; Err err;
    auto open = [&](bool trunc) { mc::op("open%s", trunc ? " emptying it" : ""); g.reset(); s.reset(); m.sync(); if (trunc) m.disk.clear(); if (st) s = std::make_shared<St>(m.path, trunc); else s = std::make_shared<Mt>(m.path, trunc); s->set_pattern("%v"); g.reset(new ll::logger("n", s)); m.check(true); };
    { bool trunc = mc::choose(2); if (old < 2) { if (st) s = std::make_shared<St>(m.path, trunc); else s = std::make_shared<Mt>(m.path, trunc); s->set_pattern("%v"); g.reset(new ll::logger("n", s)); m.check(true); } else open(trunc); }
    int n = (int)lens.size();
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(n + 5);
        if (k < n) { mc::op("log %zu bytes", lens[k]); std::string t = text(i, lens[k] - 1); g->info(ll::fmt_string_view(t)); m.buf += t + "\n"; m.check(false); }
        else if (k == n) { mc::op("flush"); g->flush(); m.sync(); }
        else if (k <= n + 2) open(k == n + 2);
        else if (k == n + 3) { mc::op("flush, and another program appends"); g->flush(); m.sync(); int f = ::open(m.path.c_str(), O_WRONLY | O_APPEND); if (write(f, "[ext]\n", 6)) {} close(f); m.disk += "[ext]\n"; m.check(true); }
        else { mc::op("flush, and another program empties the file"); g->flush(); m.sync(); if (truncate(m.path.c_str(), 0)) {} m.disk.clear(); m.check(true); }
    }
    g.reset(); s.reset(); m.sync(); MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 500).c_str()); mc::outcome(std::to_string(m.disk.size()));
}
MC_SCENARIO(histories, 5, 6, 0, 0, 0) { history({1, 6}, mc::depth()); }
MC_SCENARIO(buffer_sizes, 3, 4, 0, 0, 0) { history({1, 4095, 4096, 4097, 8192, 70000}, mc::depth()); }
MC_SCENARIO(large_texts, 2, 3, 0, 0, 0) { history({1, 32768, 65536, 65537, 1 << 20, (1 << 20) + 1, 5 << 20}, mc::depth()); }
// two loggers on one sink, and two sinks on one file (each flushes after its message): nobody overwrites anybody
MC_SCENARIO(shared, 5, 6, 0, 0, 0) {
    std::string f = std::string(mc::scratch()) + "/log.txt", want; int two = mc::choose(2); auto a = std::make_shared<Mt>(f), b = two ? std::make_shared<Mt>(f) : a; a->set_pattern("%v"); b->set_pattern("%v");
    std::unique_ptr<ll::logger> g(new ll::logger("a", std::static_pointer_cast<ll::sinks::sink>(a))), h(new ll::logger("b", std::static_pointer_cast<ll::sinks::sink>(b))); if (two) { g->set_flush_level(ll::level::info); h->set_flush_level(ll::level::info); }
    for (int i = 0; i < mc::depth(); i++) { int k = mc::choose(4); ll::logger& l = k & 1 ? *h : *g; if (k & 2) { l.flush(); if (two) continue; } else { std::string t = text(i, 3); l.info(ll::fmt_string_view(t)); want += t + "\n"; } if (two || (k & 2)) MC_CHECK(slurp(f) == want, "the file contains %s, expected %s", mc::quote(slurp(f)).c_str(), mc::quote(want).c_str()); }
    g.reset(); a.reset(); h.reset(); b.reset(); MC_CHECK(slurp(f) == want, "at the end the file contains %s, expected %s", mc::quote(slurp(f)).c_str(), mc::quote(want).c_str()); mc::outcome(std::to_string(want.size()) + (two ? "s" : ""));
}
// many files open at a time: none of them notices the others
MC_SCENARIO(many_open, 4, 6, 0, 0, 0) {
    static const int N[] = {2, 3, 9, 17, 33, 65, 130, 300}; int n = N[mc::choose(8)], big = mc::choose(2), two = mc::choose(2); std::string d = mc::scratch(), shared; std::vector<std::shared_ptr<Mt>> s(n); std::vector<std::unique_ptr<ll::logger>> g(n); std::vector<Model> m(n); Err err;
    auto open = [&](int i) { g[i].reset(); s[i].reset(); m[i].path = d + "/f" + std::to_string(i); m[i].sync(); s[i] = std::make_shared<Mt>(m[i].path); s[i]->set_pattern("%n %v"); g[i].reset(new ll::logger("l" + std::to_string(i), std::static_pointer_cast<ll::sinks::sink>(s[i]))); };
    for (int i = 0; i < n; i++) { spit(d + "/f" + std::to_string(i), ""); open(i); }
    auto put = [&](int i, int k) { std::string t = text(i + k, big ? 3000 : 3); g[i]->info(ll::fmt_string_view(t)); m[i].buf += g[i]->name() + " " + t + "\n"; };
    for (int k = 0; k < mc::depth() - (n > 9) - (n > 40); k++) { switch (mc::choose(5)) {
        case 0: mc::op("log to all"); for (int i = 0; i < n; i++) put(i, k); break;
        case 1: mc::op("log to the last and the first"); put(n - 1, k); put(0, k); break;
        case 2: mc::op("flush the first half"); for (int i = 0; i < (n + 1) / 2; i++) { g[i]->flush(); m[i].sync(); } break;
        case 3: mc::op("open %s again", two ? "all" : "the middle one"); if (two) for (int i = n; i--; ) open(i); else open(n / 2); break;
        case 4: mc::op("log twice to every other"); for (int i = 0; i < n; i += 2) { put(i, k); put(i, k + 1); } break; } }
    for (int i = 0; i < n; i++) { g[i].reset(); s[i].reset(); m[i].sync(); } MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 500).c_str()); mc::outcome(std::to_string(n));
}
// through the factories and the registry: closing the library writes everything
MC_SCENARIO(factories, 0, 0, 0, 0, mc::F_FORK) {
    std::string d = mc::scratch(), f = d + "/x/log.txt"; int k = mc::choose(4), trunc = mc::choose(2), end = mc::choose(3); mkdir((d + "/x").c_str(), 0755); spit(f, "old\n");
    ll::logger_shr_ptr g = k == 0 ? ll::basic_file_logger_mt("n", f, trunc) : k == 1 ? ll::basic_file_logger_st("n", f, trunc) : k == 2 ? ll::create<Mt>("n", f, (bool)trunc) : trunc ? ll::basic_file_logger_mt("n", f, true) : ll::basic_file_logger_mt("n", f);
    MC_CHECK(ll::get_logger("n") == g, "not registered"); ll::set_global_pattern("%n %v"); g->warn("one {}", 1); g.reset(); if (end == 0) ll::close(); else if (end == 1) ll::remove_logger("n"); else ll::remove_all();
    std::string want = trunc ? "n one 1\n" : "old\nn one 1\n"; MC_CHECK(slurp(f) == want, "the file contains %s", mc::quote(slurp(f)).c_str()); mc::outcome(std::to_string(k) + std::to_string(trunc));
}
// The process ends before, or in the middle of, any file system call.
static std::string g_all, g_acked, g_path; static bool g_torn;
static void judge() { std::string t = slurp(g_path); if (t == "<missing>") t = ""; MC_CHECK(t.size() >= g_acked.size() && g_all.compare(0, t.size(), t) == 0, "the process ended: the file holds %s; logged %s, flushed %s", mc::quote(t.substr(0, 300)).c_str(), mc::quote(g_all.substr(0, 300)).c_str(), mc::quote(g_acked.substr(0, 300)).c_str()); mc::outcome(std::to_string(t.size())); mc::finish(); }
static sf::Ans crash(const sf::Ev& e) {
    if (g_torn) judge();
    int k = mc::deviate(e.call == sf::WRITE && e.len > 1 ? 4 : 2); if (!k) return {sf::Ans::OK, 0, 0};
    mc::op("%s: the process ends%s", sf::NAME[e.call], k == 1 ? "" : k == 2 ? " after one byte" : " after all but one byte"); if (k == 1) judge();
    g_torn = true; return {sf::Ans::SHORT, 0, k == 2 ? 1 : e.len - 1};
}
MC_SCENARIO(crashes, 4, 6, 1, 1, mc::F_FORK) {
    std::string d = mc::scratch(); g_path = d + "/log.txt"; bool trunc = mc::choose(2); if (!trunc) { spit(g_path, "old\n"); g_all = g_acked = "old\n"; }
    sf::begin(d, crash); auto s = std::make_shared<Mt>(g_path, trunc); s->set_pattern("%v"); std::unique_ptr<ll::logger> g(new ll::logger("n", std::static_pointer_cast<ll::sinks::sink>(s))); g->set_flush_level(ll::level::error);
    for (int i = 0; i < mc::depth(); i++) {
        int k = mc::choose(5); std::string t = text(i, k == 1 ? 4090 : 4);
        if (k < 2) { mc::op("log %zu bytes", t.size() + 1); g_all += t + "\n"; g->info(ll::fmt_string_view(t)); } else if (k == 2) { mc::op("log an error"); g_all += t + "\n"; g->error(ll::fmt_string_view(t)); g_acked = g_all; }
        else if (k == 3) { mc::op("flush"); g->flush(); g_acked = g_all; }
        else { mc::op("close and open again"); g.reset(); s.reset(); g_acked = g_all; s = std::make_shared<Mt>(g_path); s->set_pattern("%v"); g.reset(new ll::logger("n", std::static_pointer_cast<ll::sinks::sink>(s))); g->set_flush_level(ll::level::error); }
    }
    g.reset(); s.reset(); g_acked = g_all; sf::end(); std::string t = slurp(g_path); MC_CHECK(t == g_all, "the file holds %s; logged %s", mc::quote(t.substr(0, 300)).c_str(), mc::quote(g_all.substr(0, 300)).c_str()); mc::outcome(std::to_string(t.size()));
}
// opening that succeeds only after some attempts: the old content is kept, or gone, exactly as asked
static int g_left, g_err;
static sf::Ans hurdle(const sf::Ev& e) { if (e.call == sf::OPEN && g_left > 0) { g_left--; mc::op("open fails"); return {sf::Ans::ERR, g_err, 0}; } return {sf::Ans::OK, 0, 0}; }
MC_SCENARIO(opened_late, 0, 0, 0, 0, mc::F_FORK) {
    static const int E[] = {EMFILE, ENOSPC, EINTR}; std::string d = mc::scratch(), f = d + "/log.txt"; bool trunc = mc::choose(2), again = mc::choose(2); g_err = E[mc::choose(3)]; g_left = mc::choose(5); if (mc::choose(2)) spit(f, "an older, longer content\n"); else g_all = ""; std::string old = slurp(f); if (old == "<missing>" || trunc) old = "";
    sf::begin(d, hurdle); std::string want = old; try { { Mt s(f, trunc); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "one", "n")); want += "one\n"; } if (again) { g_left = 2; Mt s(f); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "two", "n")); want += "two\n"; } } catch (const std::exception& e) { sf::end(); mc::fail("not opened: %s", e.what()); }
    sf::end(); MC_CHECK(slurp(f) == want, "the file holds %s, expected %s", mc::quote(slurp(f)).c_str(), mc::quote(want).c_str()); mc::outcome(std::to_string(want.size()));
}
