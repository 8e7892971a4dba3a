// S05: rolling files: names, sizes, contents and numbers of files, for every history of messages, flushes and restarts.
#include "seqlib.h"
#include "nosleep.h"
#include "sysfault.h"
#include "sinks/rolling_file_sink.h"
#include "logger.h"
typedef ll::sinks::rolling_file_sink_mt Sink;
static std::string num(size_t i, size_t n) { std::string a = std::to_string(i), b = std::to_string(n); return std::string(b.size() > a.size() ? b.size() - a.size() : 0, '0') + a; }
static std::string name_of(const std::string& base, size_t i, size_t n) {
    size_t sl = base.rfind('/'), st = sl == std::string::npos ? 0 : sl + 1, dot = base.rfind('.');
    size_t cut = dot == std::string::npos || dot <= st ? base.size() : dot;
    return base.substr(0, cut) + "_" + num(i, n) + base.substr(cut);
}
struct Model {
    std::string base; size_t max, n, idx; std::map<std::string, std::string> f; bool open; size_t flushed;     // flushed: length of the current file known to be on disk
    std::string cur() { return name_of(base, idx, n); }
    void start() { for (idx = 1; idx < n; idx++) if (!f.count(cur())) break; f[cur()] = ""; open = true; flushed = 0; }
    void log(const std::string& line) {
        std::string& c = f[cur()];
        if (!c.empty() && c.size() + line.size() > max) { for (; idx < n; idx++) if (!f.count(cur())) break; f[cur()] = ""; flushed = 0; }
        f[cur()] += line;
    }
    void check(bool exact) {
        size_t sl = base.rfind('/'); std::string dir = sl == std::string::npos ? "." : base.substr(0, sl); std::vector<std::string> want; for (auto& x : f) want.push_back(sl == std::string::npos ? x.first : x.first.substr(sl + 1));
        std::vector<std::string> have = ls(dir); MC_CHECK(have == want, "files: %s; expected: %s", join(have).c_str(), join(want).c_str());
        for (auto& x : f) {
            std::string t = slurp(x.first);
            if (exact || !open || x.first != cur()) MC_CHECK(t == x.second, "%s contains %s, expected %s", x.first.c_str(), mc::quote(t.substr(0, 300)).c_str(), mc::quote(x.second.substr(0, 300)).c_str());
            else MC_CHECK(t.size() >= flushed && t.size() <= x.second.size() && x.second.compare(0, t.size(), t) == 0, "%s contains %s, expected a beginning of %s, at least %zu bytes", x.first.c_str(), mc::quote(t.substr(0, 300)).c_str(), mc::quote(x.second.substr(0, 300)).c_str(), flushed);
        }
    }
};
static std::string text(int i, size_t len) { std::string s; while (s.size() < len) s += (char)('a' + (i + s.size()) % 26); return s; }
static void history(size_t max, std::vector<size_t> lens, std::vector<size_t> nums, int depth, int olds) {
    size_t n = nums[mc::choose((int)nums.size())]; int old = mc::choose(olds); std::string d = std::string(mc::scratch()) + "/d";
    Model m; m.base = d + "/log.txt"; m.max = max; m.n = n; m.open = false; m.flushed = 0; mkdir(d.c_str(), 0755);
    for (int i = 1; i <= 2; i++) if (old & i) { std::string f = name_of(m.base, i, n); spit(f, "old"); m.f[f] = "old"; }
    mc::op("at most %zu files of %zu bytes, %zu already there", n, max, m.f.size());
    std::shared_ptr<Sink> s; std::unique_ptr<ll::logger> g;
    auto open = [&] { g.reset(); s.reset(); s = std::make_shared<Sink>(m.base, max, n); s->set_pattern("%v"); g.reset(new ll::logger("n", s)); m.start(); m.check(false); };
    open(); Err err;
    for (int i = 0; i < depth; i++) {
        int k = mc::choose((int)lens.size() + 2);
        if (k < (int)lens.size()) { std::string t = text(i, lens[k] - 1); mc::op("log %zu bytes", lens[k]); g->info(ll::fmt_string_view(t)); m.log(t + "\n"); m.check(false); }
        else if (k == (int)lens.size()) { mc::op("flush"); g->flush(); m.flushed = m.f[m.cur()].size(); m.check(true); }
        else { mc::op("close, open again"); g.reset(); s.reset(); m.open = false; m.check(true); open(); }
    }
    g.reset(); s.reset(); m.open = false; m.check(true);
    MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 500).c_str());
    size_t cap = n < 1 ? 1 : n; MC_CHECK(m.f.size() <= std::max(cap, m.f.size()), "files");
    std::string o; for (auto& x : m.f) o += std::to_string(x.second.size()) + " "; mc::outcome(o);
}
#ifndef FAULTS_ONLY
MC_SCENARIO(sequences, 4, 6, 0, 0, 0) { history(8, {1, 4, 8, 9}, {0, 1, 2, 3}, mc::depth(), 4); }
MC_SCENARIO(many_files, 6, 9, 0, 0, 0) { history(4, {4, 5}, {10}, mc::depth(), 4); }
MC_SCENARIO(buffer_sizes, 3, 4, 0, 0, 0) { history(9000, {1, 4095, 4096, 4097, 8999, 9000, 9001}, {3}, mc::depth(), 1); }
// somebody tidies up: an older file is removed or made meanwhile; what is written goes on in order
MC_SCENARIO(tidied, 5, 7, 0, 0, 0) {
    static const size_t L[] = {1, 4, 8, 9}, N[] = {2, 3, 5, 11}; size_t n = N[mc::choose(4)]; int old = mc::choose(2); std::string d = std::string(mc::scratch()) + "/d"; mkdir(d.c_str(), 0755); Model m; m.base = d + "/log.txt"; m.max = 8; m.n = n; m.open = false; m.flushed = 0; if (old) { std::string f = name_of(m.base, 1, n); spit(f, "old"); m.f[f] = "old"; }
    std::shared_ptr<Sink> s = std::make_shared<Sink>(m.base, 8, n); s->set_pattern("%v"); ll::logger g("n", s); m.start(); m.check(false); Err err;
    for (int i = 0; i < mc::depth(); i++) {
        int k = mc::choose(7);
        if (k < 4) { std::string t = text(i, L[k] - 1); mc::op("log %zu bytes", L[k]); g.info(ll::fmt_string_view(t)); m.log(t + "\n"); }
        else if (k == 6) { if (m.idx + 1 > n) return; std::string f = name_of(m.base, m.idx + 1, n); if (m.f.count(f)) return; mc::op("the next file is made by somebody else"); spit(f, "new\n"); m.f[f] = "new\n"; if (m.idx + 1 == n) { m.check(false); return; } }
        else { size_t v = k == 4 ? 1 : m.idx - 1; if (v < 1 || v >= m.idx || !m.f.count(name_of(m.base, v, n)) || (k == 5 && v == 1)) return; mc::op("file %zu is removed", v); unlink(name_of(m.base, v, n).c_str()); m.f.erase(name_of(m.base, v, n)); }
        m.check(false);
    }
    g.flush(); m.flushed = m.f[m.cur()].size(); m.check(true); MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 500).c_str()); std::string o; for (auto& x : m.f) o += x.first.substr(d.size()) + std::to_string(x.second.size()) + " "; mc::outcome(o);
}
// limits beyond 16 bits, in reach of the messages
MC_SCENARIO(large_files, 4, 5, 0, 0, 0) { history(140000, {1, 65535, 65536, 70000, 140000, 140001}, {3}, mc::depth(), 1); }
// limits beyond 32 bits: one file holds everything
MC_SCENARIO(huge_limits, 3, 4, 0, 0, 0) { static const size_t L[] = {65536, 65537, 1u << 31, 4294967295u, 4294967296u, 4294967297u, 4294967300u, 1ull << 48, 1ull << 63, SIZE_MAX - 1, SIZE_MAX}; size_t l = L[mc::choose(11)]; history(l, {1, 6, 4096}, {1, 3}, mc::depth(), 2); }
// many rolling files open at a time, in one directory: none of them notices the others
MC_SCENARIO(many_open, 4, 6, 0, 0, 0) {
    static const int N[] = {2, 3, 17, 33, 65, 130, 300}; int n = N[mc::choose(7)], all = mc::choose(2); std::string d = std::string(mc::scratch()) + "/d"; mkdir(d.c_str(), 0755); std::vector<std::shared_ptr<Sink>> s(n); std::vector<std::unique_ptr<ll::logger>> g(n); std::vector<Model> m(n); Err err;
    auto open = [&](int i) { g[i].reset(); s[i].reset(); s[i] = std::make_shared<Sink>(m[i].base, 20, 3); s[i]->set_pattern("%n %v"); g[i].reset(new ll::logger("l" + std::to_string(i), std::static_pointer_cast<ll::sinks::sink>(s[i]))); m[i].start(); };
    for (int i = 0; i < n; i++) { m[i].base = d + "/f" + std::to_string(i) + (i & 1 ? ".log" : ""); m[i].max = 20; m[i].n = 3; open(i); }
    auto put = [&](int i, int k) { std::string t = text(i + k, 1 + (i + k) % 9); g[i]->info(ll::fmt_string_view(t)); m[i].log(g[i]->name() + " " + t + "\n"); };
    for (int k = 0; k < mc::depth() - (n > 9) - (n > 40); k++) { switch (mc::choose(4)) {
        case 0: mc::op("log to all"); for (int i = 0; i < n; i++) put(i, k); break;
        case 1: mc::op("log twice to the last and the first"); for (int r = 0; r < 2; r++) { put(n - 1, k); put(0, k); } break;
        case 2: mc::op("open %s again", all ? "all" : "the middle one"); if (all) for (int i = n; i--; ) open(i); else open(n / 2); break;
        case 3: mc::op("log twice to every other"); for (int i = 0; i < n; i += 2) { put(i, k); put(i, k + 1); } break; } }
    Model u; u.base = d + "/x"; u.open = false; for (int i = 0; i < n; i++) { g[i].reset(); s[i].reset(); u.f.insert(m[i].f.begin(), m[i].f.end()); } u.check(true); MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 500).c_str()); mc::outcome(std::to_string(u.f.size()));
}
// the index goes in front of the extension
MC_SCENARIO(names, 4, 6, 0, 0, 0) {
    static const char A[] = "a./_"; std::string b; int len = 1 + mc::choose(mc::depth()); for (int i = 0; i < len; i++) b += A[mc::choose(4)];
    if (b[0] == '/' || b.back() == '/') return;
    static const size_t N[] = {1, 9, 10, 99, 100, 10000}; size_t n = N[mc::choose(6)];
    std::string d = std::string(mc::scratch()) + "/x"; for (int i = 0; i < 4; i++) { mkdir(d.c_str(), 0755); d += "/x"; } mkdir(d.c_str(), 0755); MC_CHECK(chdir(d.c_str()) == 0, "chdir");
    mc::op("base name %s, at most %zu files", mc::quote(b).c_str(), n);
    { Sink s(b, 10, n); s.set_pattern("%v");
      for (size_t i : {1, 9, 10, 100, 9999, 10000}) if (i <= n) MC_CHECK(s.get_rolling_filename(i) == name_of(b, i, n), "file %zu is called %s, expected %s", i, s.get_rolling_filename(i).c_str(), name_of(b, i, n).c_str());
      MC_CHECK(s.base_filename() == b, "base_filename"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); }
    MC_CHECK(slurp(name_of(b, 1, n)) == "m\n", "%s contains %s", name_of(b, 1, n).c_str(), mc::quote(slurp(name_of(b, 1, n))).c_str());
    if (chdir("/")) {} mc::outcome(name_of(b, 1, n));
}
// unusable settings are refused, and touch nothing
MC_SCENARIO(refused, 0, 0, 0, 0, 0) {
    std::string d = std::string(mc::scratch()) + "/d"; int k = mc::choose(4); size_t sz[] = {0, 1, 0, 1}, n[] = {3, 10001, 10001, 10000}; bool threw = false; int where = mc::choose(2);
    if (where) { try { Sink s(d + "/a.txt", sz[k], n[k]); } catch (const std::exception&) { threw = true; } } else { try { ll::sinks::rolling_file_sink_st s(d + "/a.txt", sz[k], n[k]); } catch (const std::exception&) { threw = true; } }
    MC_CHECK(threw == (k < 3), "size %zu, number %zu: %s", sz[k], n[k], threw ? "refused" : "accepted"); MC_CHECK(exists(d) == (k == 3), "files"); mc::outcome(std::to_string(threw));
}
#endif
// The process ends, or a call fails, at any file system call.
static Model* M; static int g_fault, g_opfaults; static std::vector<std::string> lines; static size_t g_acked; static bool g_burst;
static void whole_lines(bool crash) {      // the files are the messages in order; nothing flushed is missing, nothing torn but at the end
    std::string all; for (size_t i = 1; i <= M->n; i++) { std::string f = name_of(M->base, i, M->n); if (!exists(f)) break; std::string t = slurp(f); MC_CHECK(t.size() <= M->max || t.find('\n') == t.size() - 1, "%s is %zu bytes long", f.c_str(), t.size()); all += t; }
    std::string want, ack; for (size_t i = 0; i < lines.size(); i++) { want += lines[i]; if (i < g_acked) ack = want; }
    MC_CHECK(want.compare(0, all.size(), all) == 0 && all.size() >= ack.size(), "%s: the files hold %s; logged %s, flushed %s", crash ? "process ended" : "end", mc::quote(all).c_str(), mc::quote(want).c_str(), mc::quote(ack).c_str());
}
static sf::Ans crash_at(const sf::Ev& e) {
    int k = mc::deviate(e.call == sf::WRITE && e.len > 1 ? 4 : 2);
    if (!k) return {sf::Ans::OK, 0, 0};
    mc::op("%s %s: the process ends%s", sf::NAME[e.call], e.path, k == 1 ? "" : k == 2 ? " after one byte" : " after all but one byte");
    if (k > 1) { mc::op("torn"); }
    if (k > 1) g_fault = k; else { whole_lines(true); mc::outcome("crash " + std::to_string(e.call)); mc::finish(); }
    return {sf::Ans::SHORT, 0, k == 2 ? 1 : e.len - 1};
}
static sf::Ans crash_policy(const sf::Ev& e) { if (g_fault) { whole_lines(true); mc::outcome("torn " + std::to_string(g_fault)); mc::finish(); } return crash_at(e); }
static sf::Ans fail_policy(const sf::Ev& e) {
    if (g_burst && e.call == sf::OPEN) { g_opfaults++; return {sf::Ans::ERR, EMFILE, 0}; }
    int k = mc::deviate(e.call == sf::OPEN || e.call == sf::WRITE ? 3 : 2);
    if (!k) return {sf::Ans::OK, 0, 0};
    g_opfaults++;
    if (e.call == sf::OPEN && k == 2) { mc::op("open %s fails, and again until the call ends", e.path); g_burst = true; return {sf::Ans::ERR, EMFILE, 0}; }
    if (e.call == sf::WRITE && k == 2) { mc::op("write of %zu bytes: one is written", e.len); return {sf::Ans::SHORT, 0, 1}; }
    mc::op("%s %s fails", sf::NAME[e.call], e.path); return {sf::Ans::ERR, e.call == sf::WRITE ? ENOSPC : EIO, 0};
}
static void faulty(sf::Policy p, bool crash) {
    std::string d = std::string(mc::scratch()) + "/d"; Model m; m.base = d + "/log.txt"; m.max = 8; m.n = 9; M = &m;
    std::shared_ptr<Sink> s = std::make_shared<Sink>(m.base, 8, 9); s->set_pattern("%v"); auto other = std::make_shared<RecSink>(); std::unique_ptr<ll::logger> g(new ll::logger("n", {s, other}));
    Err err; sf::begin(d, p, !crash); int faults = 0; std::vector<char> clean; size_t since = 0;      // messages from `since` on were logged after the last fault
    int depth = mc::depth();
    for (int i = 0; i <= depth; i++) {
        int k = i == depth ? 4 : mc::choose(4); static const size_t L[] = {4, 8, 9}; g_opfaults = 0; g_burst = false;
        try {
            if (k < 3) { std::string t = text(i, L[k] - 1); mc::op("log %zu bytes", L[k]); lines.push_back(t + "\n"); g->info(ll::fmt_string_view(t)); }
            else if (k == 3) { mc::op("flush"); g->flush(); if (!g_opfaults && since == 0) g_acked = lines.size(); }
            else { mc::op("log and flush"); lines.push_back("end\n"); g->info("end"); g->flush(); }
        } catch (...) { mc::fail("the logging call threw"); }
        if (g_opfaults) { faults++; since = lines.size(); }
        MC_CHECK(other->recs.size() == lines.size(), "the other sink got %zu of %zu messages", other->recs.size(), lines.size());
    }
    g_opfaults = 0; g_burst = false; g.reset(); s.reset(); sf::end(); if (g_opfaults) faults++;
    std::string all; for (size_t i = 1; i <= m.n; i++) { std::string f = name_of(m.base, i, m.n); if (exists(f)) { std::string t = slurp(f); all += t; MC_CHECK(t.size() <= m.max || t.find('\n') == t.size() - 1, "%s is %zu bytes long: %s", f.c_str(), t.size(), mc::quote(t).c_str()); } }
    if (!faults) { g_acked = lines.size(); whole_lines(false); MC_CHECK(err.reports() == 0 && faults == 0, "reported: %s", err.text().c_str()); mc::outcome("no fault"); return; }
    std::string tail; for (size_t i = since; i < lines.size(); i++) tail += lines[i];
    MC_CHECK(all.size() >= tail.size() && all.compare(all.size() - tail.size(), tail.size(), tail) == 0, "after the faults %s was logged and flushed, the files end with %s", mc::quote(tail).c_str(), mc::quote(all).c_str());
    std::string want; for (auto& l : lines) want += l;
    if (all != want) MC_CHECK(err.reports() > 0, "%s was logged, the files hold %s, and nothing was reported", mc::quote(want).c_str(), mc::quote(all).c_str());
    mc::outcome((all == want ? "recovered " : "lost some, ") + std::to_string(err.reports()) + " reports");
}
#ifndef FAULTS_ONLY
MC_SCENARIO(crashes, 4, 6, 1, 1, mc::F_FORK) { faulty(crash_policy, true); }
#endif
MC_SCENARIO(faults, 4, 4, 1, 2, mc::F_FORK) { faulty(fail_policy, false); }
