// C12: the backtrace of a logger holds its last n messages, whatever their level, and a dump writes exactly those.
#include "seqlib.h"
#include "logger.h"
#include <deque>
static const char* START = "*********************** Backtrace Start ***********************"; static const char* END = "************************ Backtrace End ************************";
struct M { std::string text, file; int level, line; long long ns; };
struct Model {      // per sink: what it must have received
    int lvl = 2, fl = 6; bool on = false; size_t cap = 0, in = 0, out_ = 0; std::deque<M> ring; int slvl[2] = {0, 3}; std::vector<M> got[2]; int flushes = 0;
    void out(const M& m) { for (int i = 0; i < 2; i++) if (m.level >= slvl[i]) got[i].push_back(m); if (m.level >= fl && m.level != 6) flushes++; }
    void log(const M& m) { if (m.level >= lvl) out(m); if (on && cap) { in++; ring.push_back(m); if (ring.size() > cap) { ring.pop_front(); out_++; } } }
    void mark(const char* t) { M m; m.text = t; m.level = 2; m.line = 0; m.ns = -1; out(m); }
    void dump() { if (!on) return; mark("Start"); for (auto& m : ring) { out(m); out_++; } ring.clear(); mark("End"); }
};
static void compare(Model& w, std::shared_ptr<RecSink>* s) {
    for (int i = 0; i < 2; i++) { auto& r = s[i]->recs; std::string h, e; for (auto& x : r) h += x.text.substr(0, 70) + "/"; for (auto& x : w.got[i]) e += x.text.substr(0, 20) + "/"; MC_CHECK(r.size() == w.got[i].size(), "sink %d received %s; expected %s", i, h.c_str(), e.c_str());
        for (size_t k = 0; k < r.size(); k++) { auto& a = r[k]; auto& b = w.got[i][k]; bool mark = b.text == "Start" || b.text == "End"; if (mark) { MC_CHECK(a.text.find("Backtrace " + b.text) != std::string::npos && a.level == 2 && a.name == "lg", "line %zu of sink %d is %s, expected the %s line of a dump", k, i, mc::quote(a.text).c_str(), b.text.c_str()); continue; }
            MC_CHECK(a.text == b.text && a.level == b.level && a.name == "lg" && a.line == b.line && a.file == b.file && (b.ns < 0 || a.ns == b.ns), "message %zu of sink %d: %s level %d line %d, expected %s level %d line %d (%s | %s)", k, i, mc::quote(a.text.substr(0, 60)).c_str(), a.level, a.line, mc::quote(b.text.substr(0, 60)).c_str(), b.level, b.line, h.c_str(), e.c_str()); } }
    MC_CHECK(s[0]->flushes == w.flushes && s[1]->flushes == w.flushes, "%d and %d flushes, expected %d", s[0]->flushes, s[1]->flushes, w.flushes); mc::count(1);
}
static void history(int depth, bool big) {
    std::shared_ptr<RecSink> s[2] = {std::make_shared<RecSink>(), std::make_shared<RecSink>()}; s[1]->set_level(ll::level::warn); ll::logger g("lg", {s[0], s[1]}); Model w; Err err; int n = 0;
    auto put = [&](int lv) { M m; m.text = "m" + std::to_string(n); if (big) m.text += std::string(300 + n, (char)('a' + n % 26)); m.level = lv; m.line = 10 + n; m.ns = -1; int form = n++ % 4; std::string* t = new std::string(m.text);
        if (form == 0) { m.file = "f.cpp"; g.log(ll::source_loc("f.cpp", m.line, "fn"), (Lv)lv, ll::fmt_string_view(*t)); }
        else if (form == 1) { m.line = 0; g.log((Lv)lv, "{}", *t); }
        else if (form == 2) { m.line = 0; g.log((Lv)lv, ll::fmt_string_view(*t)); }
        else { m.file = "g.cpp"; m.ns = 1600000000000000000LL + n; g.log(ll::sys_clock::time_point(std::chrono::nanoseconds(m.ns)), ll::source_loc("g.cpp", m.line, "fn"), (Lv)lv, ll::fmt_string_view(*t)); }
        std::fill(t->begin(), t->end(), '?'); delete t; w.log(m); };
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(13);
        if (k < 3) { int lv = k == 0 ? 0 : k == 1 ? 2 : 4; mc::op("log at level %d", lv); put(lv); }
        else if (k == 3) { mc::op("log three traces"); for (int j = 0; j < 3; j++) put(0); }
        else if (k == 4) { mc::op("a message that cannot be formatted"); g.log(ll::level::info, fmt::runtime("{:d}"), "x"); }
        else if (k < 9) { size_t c = k - 5; mc::op("enable_backtrace_n(%zu)", c); g.enable_backtrace_n(c); w.on = true; w.cap = c; w.ring.clear(); w.in = w.out_ = 0; }
        else if (k == 9) { mc::op("disable_backtrace()"); g.disable_backtrace(); w.on = false; w.ring.clear(); }
        else if (k == 10) { mc::op("dump_backtrace()"); g.dump_backtrace(); w.dump(); }
        else if (k == 11) { w.lvl = w.lvl == 2 ? 6 : 2; mc::op("log level %d", w.lvl); g.set_log_level((Lv)w.lvl); }
        else { w.fl = w.fl == 6 ? 4 : 6; mc::op("flush level %d", w.fl); g.set_flush_level((Lv)w.fl); }
        compare(w, s);
        mc::state(std::to_string(w.lvl) + "," + std::to_string(w.fl) + "," + std::to_string(w.on) + "," + std::to_string(w.cap) + "," + [&] { std::string o; for (auto& m : w.ring) o += std::to_string(m.level) + "f" + std::to_string(m.line > 0) + "t" + std::to_string(m.ns > 0); return o; }() + "p" + std::to_string(w.in % (w.cap + 1)) + "q" + std::to_string(w.out_ % (w.cap + 1)) + "n" + std::to_string(n % 4) + "r" + std::to_string(err.reports() > 0), depth - i - 1);
    }
    g.dump_backtrace(); w.dump(); g.dump_backtrace(); w.dump(); compare(w, s); mc::outcome(std::to_string(w.got[0].size()) + "," + std::to_string(w.got[1].size()));
}
MC_SCENARIO(histories, 7, 9, 0, 0, 0) { history(mc::depth(), false); }
MC_SCENARIO(long_texts, 5, 7, 0, 0, 0) { history(mc::depth(), true); }
// capacities and numbers of messages
MC_SCENARIO(counts, 0, 0, 0, 0, 0) {
    size_t cap = mc::choose(12), n = mc::choose(30); int again = mc::choose(3); auto s = std::make_shared<RecSink>(); ll::logger g("lg", s); g.set_log_level(ll::level::off); g.enable_backtrace_n(cap);
    for (int r = 0; r <= again; r++) { s->recs.clear(); for (size_t i = 0; i < n; i++) g.debug("{}", i); g.dump_backtrace(); size_t k = std::min(cap, n); MC_CHECK(s->recs.size() == k + 2, "capacity %zu, %zu messages: %zu lines", cap, n, s->recs.size()); for (size_t i = 0; i < k; i++) MC_CHECK(s->recs[i + 1].text == std::to_string(n - k + i), "line %zu is %s", i, s->recs[i + 1].text.c_str()); }
    mc::outcome(std::to_string(std::min(cap, n)));
}
// capacities beyond 8 and 16 bits; texts and lines beyond 16 bits
MC_SCENARIO(large, 0, 0, 0, 0, 0) {
    static const size_t C[] = {127, 128, 255, 256, 1000, 1024, 1025, 5000, 32768, 65535, 65536, 70000}; size_t cap = C[mc::choose(12)], n = cap + mc::choose(3) * 2 - 1; auto s = std::make_shared<RecSink>(); ll::logger g("lg", s); g.set_log_level(ll::level::off); g.enable_backtrace_n(cap);
    for (int r = 0; r < 2; r++) { s->recs.clear(); for (size_t i = 0; i < n; i++) g.debug("{}", i); g.dump_backtrace(); size_t k = std::min(cap, n); MC_CHECK(s->recs.size() == k + 2, "capacity %zu, %zu messages: %zu lines", cap, n, s->recs.size()); for (size_t i = 0; i < k; i++) if (s->recs[i + 1].text != std::to_string(n - k + i)) mc::fail("line %zu is %s", i, s->recs[i + 1].text.c_str()); }
    mc::outcome(std::to_string(cap) + "/" + std::to_string(n));
}
MC_SCENARIO(large_texts, 0, 0, 0, 0, 0) {
    static const size_t C[] = {249, 250, 251, 32767, 32768, 65535, 65536, 70000, 1 << 20}; size_t n = C[mc::choose(9)]; static const int L[] = {1, 32767, 32768, 65535, 65536, 2147483647}; int line = L[mc::choose(6)]; std::string name(mc::choose(2) ? 70000 : 2, 'n'); auto s = std::make_shared<RecSink>(); ll::logger g(name, s); g.set_log_level(ll::level::off); g.enable_backtrace_n(2);
    std::vector<std::string> t; for (int i = 0; i < 3; i++) { t.push_back(std::string(n, 'a' + i) + std::to_string(i)); g.log(ll::source_loc("f.cpp", line - i, "fn"), ll::level::error, ll::fmt_string_view(t.back())); } g.dump_backtrace();
    MC_CHECK(s->recs.size() == 4, "%zu lines", s->recs.size()); for (int i = 1; i < 3; i++) { auto& r = s->recs[i]; MC_CHECK(r.text == t[i] && r.line == line - i && r.name == name && r.level == ll::level::error && r.func == "fn", "text of %zu bytes at line %d became %zu bytes at line %d, name of %zu bytes", t[i].size(), line - i, r.text.size(), r.line, r.name.size()); }
    mc::outcome(std::to_string(n) + "/" + std::to_string(line));
}
// a sink that fails during a dump: the rest of the dump still reaches the other sink
MC_SCENARIO(failing_sink, 0, 0, 0, 0, 0) {
    auto a = std::make_shared<RecSink>(), b = std::make_shared<RecSink>(); ll::logger g("lg", {a, b}); g.set_log_level(ll::level::off); g.enable_backtrace_n(3); int n = mc::choose(5); Err err; for (int i = 0; i < n; i++) g.info("{}", i); a->bad = 1; g.dump_backtrace(); size_t k = std::min(3, n);
    MC_CHECK(b->recs.size() == k + 2 && err.reports() == (int)k + 2, "%zu lines, %d reports", b->recs.size(), err.reports()); a->bad = 0; g.dump_backtrace(); MC_CHECK(a->recs.size() == 2 && b->recs.size() == k + 4, "a second dump writes %zu", a->recs.size()); mc::outcome(std::to_string(n));
}
// a kept message keeps the name of the logger it was logged through, also when that logger is gone, moved from or swapped
MC_SCENARIO(names, 0, 0, 0, 0, 0) {
    auto s = std::make_shared<RecSink>(); static const size_t L[] = {2, 15, 16, 60, 300}; std::string n1(L[mc::choose(5)], 'a'), n2(L[mc::choose(5)], 'b'); std::vector<std::pair<std::string, std::string>> put; int how = mc::choose(4), n = 1 + mc::choose(3);
    auto log = [&](ll::logger& g, const std::string& nm, const char* w) { for (int i = 0; i < n; i++) { std::string t = w + std::to_string(i); g.log(ll::source_loc("f.cpp", 5, "fn"), ll::level::error, ll::fmt_string_view(t)); put.push_back({t, nm}); std::fill(t.begin(), t.end(), '?'); } };
    auto a = std::make_shared<ll::logger>(n1, s); a->set_log_level(ll::level::off); a->enable_backtrace_n(16); log(*a, n1, "x"); std::shared_ptr<ll::logger> d = a;
    if (how == 0) { auto b = a->clone(n2); log(*b, n2, "y"); b.reset(); }
    else if (how == 1) { auto b = a->clone(n2); log(*a, n1, "y"); a.reset(); d = b; log(*d, n2, "z"); }
    else if (how == 2) { d = std::make_shared<ll::logger>(std::move(*a)); a.reset(); std::string junk(n1.size(), '?'); log(*d, n1, "y"); }
    else if (how == 3) { d = std::make_shared<ll::logger>(n2, s); d->swap(*a); a.reset(); log(*d, n1, "y"); }
    std::vector<std::string> filler; for (int i = 0; i < 8; i++) filler.push_back(std::string(n1.size(), '?')), filler.push_back(std::string(n2.size(), '?'));
    d->dump_backtrace(); std::set<std::string> seen;
    MC_CHECK(s->recs.size() >= 2, "%zu lines dumped", s->recs.size());
    for (size_t i = 1; i + 1 < s->recs.size(); i++) { auto& r = s->recs[i]; bool ok = false; for (auto& p : put) ok |= p.first == r.text && p.second == r.name; MC_CHECK(ok && r.level == ll::level::error && r.line == 5 && seen.insert(r.text).second, "way %d: the dump writes %s of logger %s, line %d", how, mc::quote(r.text.substr(0, 40)).c_str(), mc::quote(r.name.substr(0, 40)).c_str(), r.line); mc::count(1); }
    // what was logged last through the logger that is dumped is among the messages
    MC_CHECK(how == 0 || seen.size() >= (size_t)n, "way %d: only %zu messages dumped", how, seen.size());
    mc::outcome(std::to_string(how) + "/" + std::to_string(s->recs.size()));
}
// copies of kept messages, and of whole backtraces: assigned, moved and swapped; each keeps its own texts
#include "base/backtracer.h"
#include "base/log_msg_buf.h"
MC_SCENARIO(kept_messages, 3, 4, 0, 0, 0) {
    typedef ll::base::log_msg_buf B; static const size_t L[] = {0, 3, 249, 250, 251, 600}; struct V { std::string text, name; int level, line; bool moved; }; std::vector<std::unique_ptr<B>> b; std::vector<V> v;
    auto put = [&](size_t len) { std::string t(len, (char)('a' + b.size())), n(len % 7 + 1, (char)('A' + b.size())); v.push_back({t, n, (int)b.size() % 6, (int)b.size() + 1, false}); ll::base::log_msg m(ll::source_loc("f.cpp", v.back().line, "fn"), (Lv)v.back().level, t, n); b.emplace_back(new B(m)); std::fill(t.begin(), t.end(), '?'); std::fill(n.begin(), n.end(), '?'); };
    put(L[mc::choose(6)]); put(L[mc::choose(6)]);
    for (int i = 0; i < mc::depth(); i++) { size_t x = mc::choose(2) ? b.size() - 1 : 0, y = b.size() - 1 - x; if (v[x].moved) return;
        switch (mc::choose(7)) {
            case 0: mc::op("copy %zu", x); b.emplace_back(new B(*b[x])); v.push_back(V(v[x])); break;
            case 1: mc::op("move %zu", x); b.emplace_back(new B(std::move(*b[x]))); v.push_back(V(v[x])); v[x].moved = true; break;
            case 2: mc::op("%zu = %zu", y, x); *b[y] = *b[x]; v[y] = V(v[x]); break;
            case 3: if (x == y) return; mc::op("%zu = move(%zu)", y, x); *b[y] = std::move(*b[x]); v[y] = V(v[x]); v[x].moved = true; break;
            case 4: mc::op("another is put into %zu", x); { std::string t(L[i % 6], '0'); ll::base::log_msg m(ll::level::error, t, "nn"); *b[x] = B(m); v[x] = V{t, "nn", 4, 0, false}; } break;
            case 5: mc::op("%zu ends", x); if (b.size() < 2) return; b.erase(b.begin() + x); v.erase(v.begin() + x); break;
            case 6: { mc::op("swap"); if (x == y || v[y].moved) return; std::swap(*b[x], *b[y]); std::swap(v[x], v[y]); break; } }
        for (size_t j = 0; j < b.size(); j++) if (!v[j].moved) { std::string t(b[j]->msg.data(), b[j]->msg.size()), n(b[j]->logger_name.data(), b[j]->logger_name.size()); MC_CHECK(t == v[j].text && n == v[j].name && b[j]->level == v[j].level && b[j]->loc.line == v[j].line, "message %zu is %s of %s, expected %s of %s", j, mc::quote(t.substr(0, 60)).c_str(), mc::quote(n).c_str(), mc::quote(v[j].text.substr(0, 60)).c_str(), v[j].name.c_str()); mc::count(1); } }
    mc::outcome(std::to_string(b.size()) + v.back().text);
}
MC_SCENARIO(kept_backtraces, 4, 5, 0, 0, 0) {
    typedef ll::base::backtracer T; std::vector<std::unique_ptr<T>> b; std::vector<std::vector<std::string>> v; std::vector<int> cap; int n = 0; b.emplace_back(new T); v.emplace_back(); cap.push_back(-1); static const size_t C[] = {0, 1, 3}, P[] = {3, 300};
    auto push = [&](size_t x, size_t len) { std::string t(len, (char)('a' + n++ % 26)); b[x]->push_back(ll::base::log_msg(ll::level::info, t, "nm")); if (cap[x] > 0) { v[x].push_back(t); if ((int)v[x].size() > cap[x]) v[x].erase(v[x].begin()); } std::fill(t.begin(), t.end(), '?'); };
    auto same = [&](size_t x) { std::vector<std::string> g; T c(*b[x]); b[x]->foreach_do([&](const ll::base::log_msg& m) { g.push_back(std::string(m.msg.data(), m.msg.size())); MC_CHECK(std::string(m.logger_name.data(), m.logger_name.size()) == "nm", "name"); }); MC_CHECK(g == v[x], "backtrace %zu: %s, expected %s", x, join(g).substr(0, 300).c_str(), join(v[x]).substr(0, 300).c_str()); *b[x] = c; mc::count(1); };
    for (int i = 0; i < mc::depth(); i++) { size_t x = mc::choose(2) ? b.size() - 1 : 0, y = b.size() - 1 - x; int k = mc::choose(8);
        if (k < 3) { mc::op("%zu keeps %zu", x, C[k]); b[x]->enable_with_size(C[k]); cap[x] = (int)C[k]; v[x].clear(); }
        else if (k < 5) { if (cap[x] < 0) return; mc::op("two messages of %zu bytes to %zu", P[k - 3], x); push(x, P[k - 3]); push(x, P[k - 3]); }
        else if (k == 5) { mc::op("copy %zu", x); b.emplace_back(new T(*b[x])); v.push_back(std::vector<std::string>(v[x])); cap.push_back(int(cap[x])); }
        else if (k == 6) { mc::op("%zu = %zu", y, x); *b[y] = *b[x]; v[y] = std::vector<std::string>(v[x]); cap[y] = cap[x]; }
        else { mc::op("%zu moved to a new one, and ends", x); std::unique_ptr<T> t(new T(std::move(*b[x]))); b[x] = std::move(t); }
        for (size_t j = 0; j < b.size(); j++) { MC_CHECK(b[j]->is_enabled() == (cap[j] >= 0), "backtrace %zu enabled: %d", j, b[j]->is_enabled()); same(j); } }
    std::string o; for (auto& x : v) o += std::to_string(x.size()); mc::outcome(o);
}
