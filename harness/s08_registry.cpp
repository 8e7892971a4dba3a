// S08: the registry and the global settings against a model: every sequence of operations up to a depth.
#include "seqlib.h"
#include "base/registry.h"
#include "sinks/formatters/pattern_formatter.h"
using namespace ll;
struct Lg { logger_shr_ptr p; std::shared_ptr<RecSink> s; std::string name; int level = 2, flush = 6; std::string pattern = "%+", shape = "none"; int flushes = 0; };
static std::string shape_of(const std::string& pat, const char* eol) {     // of patterns without time directives, or "%+" by its length class
    std::string o; for (size_t i = 0; i < pat.size(); i++) if (pat[i] == '%') { i++; o += pat[i] == 'v' ? "msg" : pat[i] == 'l' ? "warn" : pat[i] == 'n' ? "nm" : "?"; } else o += pat[i];
    return pat == "%+" ? std::string("+") + eol : o + eol;
}
static std::string shape(RecSink& s) { std::string x = s.shape(); if (x.size() > 25 && x[0] == '[' && x.find("] [nm] [warn] msg") != std::string::npos) return "+" + x.substr(x.find("msg") + 3); return x; }
static const char* NM[2] = {"A", "B"};
static const char* PT[2] = {"%v|", "<%l %v>"};
struct World {
    std::vector<Lg> all; std::map<std::string, int> reg; int dflt = -1; int gl = 2, gf = 6; std::string gp = "%+", gshape = shape_of("%+", "\n"); bool autoreg = true;
    int reports = 0; Err err;
    int make(int n, const char* why) { Lg l; l.s = std::make_shared<RecSink>(); l.name = NM[n]; l.p = std::make_shared<logger>(NM[n], l.s); all.push_back(l); (void)why; return (int)all.size() - 1; }
    void inited(int i) { Lg& l = all[i]; l.level = gl; l.flush = gf; l.pattern = gp; l.shape = gshape; }
    void registered(int i) { if (reg.count(all[i].name)) reports++; else reg[all[i].name] = i; }
    void check() {
        for (int n = 0; n < 2; n++) { auto g = get_logger(NM[n]); auto w = reg.count(NM[n]) ? all[reg[NM[n]]].p : nullptr; MC_CHECK(g == w, "get_logger(%s) returns %s", NM[n], !g ? "nothing although one is registered" : w ? "another logger" : "a logger although none is registered"); }
        MC_CHECK(get_logger("C") == nullptr && get_logger("") == nullptr, "get_logger() finds a logger nobody registered");
        MC_CHECK(get_default_logger() == (dflt < 0 ? nullptr : all[dflt].p), "get_default_logger() is wrong");
        std::multiset<logger*> seen, want; exec_all([&](logger_shr_ptr p) { seen.insert(p.get()); }); for (auto& r : reg) want.insert(all[r.second].p.get());
        MC_CHECK(seen == want, "exec_all() visits %zu loggers, %zu are registered (or other ones)", seen.size(), want.size());
        flush_all(); for (auto& r : reg) all[r.second].flushes++;
        for (size_t i = 0; i < all.size(); i++) { Lg& l = all[i];
            MC_CHECK(l.p->get_log_level() == l.level, "logger %zu (%s): log level %d, expected %d", i, l.name.c_str(), (int)l.p->get_log_level(), l.level);
            MC_CHECK(l.p->get_flush_level() == l.flush, "logger %zu (%s): flush level %d, expected %d", i, l.name.c_str(), (int)l.p->get_flush_level(), l.flush);
            MC_CHECK(l.p->get_pattern() == l.pattern, "logger %zu (%s): pattern %s, expected %s", i, l.name.c_str(), l.p->get_pattern().c_str(), l.pattern.c_str());
            std::string sh = shape(*l.s); MC_CHECK(sh == l.shape, "logger %zu (%s): formats as %s, expected %s", i, l.name.c_str(), mc::quote(sh).c_str(), mc::quote(l.shape).c_str());
            MC_CHECK(l.s->flushes == l.flushes, "logger %zu (%s): flushed %d times, expected %d", i, l.name.c_str(), l.s->flushes, l.flushes); MC_CHECK(l.p->name() == l.name, "name changed"); }
        MC_CHECK(err.reports() == reports, "%d reports on stderr, expected %d: %s", err.reports(), reports, err.text().c_str());
        mc::count(1);
    }
    std::string canon() { std::string s; for (auto& l : all) s += l.name + std::to_string(l.level) + std::to_string(l.flush) + l.pattern + l.shape + ";"; for (auto& r : reg) s += r.first + std::to_string(r.second); return s + "d" + std::to_string(dflt) + "g" + std::to_string(gl) + std::to_string(gf) + gp + gshape + (autoreg ? "a" : "-"); }
};
static void reset() { remove_all(); set_global_log_level(level::info); set_global_flush_level(level::off); set_global_pattern("%+"); set_auto_register_logger(true); }
static bool step(World& w, int o) {
    switch (o) {
        case 0: case 1: {
            mc::op("create %s", NM[o]); auto p = ll::create<RecSink>(NM[o]); Lg l; l.p = p; l.name = NM[o]; MC_CHECK(p && p->sinks().size() == 1, "create() gave no logger");
            l.s = std::static_pointer_cast<RecSink>(p->sinks()[0]); w.all.push_back(l); int i = (int)w.all.size() - 1; w.inited(i); if (w.autoreg) w.registered(i); break; }
        case 2: { mc::op("initialize_logger(new A)"); int i = w.make(0, ""); w.all[i].p->set_log_level(level::critical); w.all[i].p->set_flush_level(level::trace); w.all[i].p->set_pattern("own %v"); initialize_logger(w.all[i].p); w.inited(i); if (w.autoreg) w.registered(i); break; }
        case 3: { mc::op("register_logger(own-settings A)"); int i = w.make(0, ""); Lg& l = w.all[i]; l.p->set_log_level(level::critical); l.p->set_flush_level(level::error); l.p->set_pattern("own %v"); l.level = 5; l.flush = 4; l.pattern = "own %v"; l.shape = shape_of("own %v", "\n"); register_logger(l.p); w.registered(i); break; }
        case 4: { mc::op("register_logger(plain B)"); int i = w.make(1, ""); register_logger(w.all[i].p); w.registered(i); break; }
        case 5: w.autoreg = !w.autoreg; mc::op("set_auto_register_logger(%d)", (int)w.autoreg); set_auto_register_logger(w.autoreg); break;
        case 6: case 7: mc::op("remove_logger(%s)", NM[o - 6]); remove_logger(NM[o - 6]); w.reg.erase(NM[o - 6]); if (w.dflt >= 0 && w.all[w.dflt].name == NM[o - 6]) w.dflt = -1; break;
        case 8: mc::op("remove_all()"); remove_all(); w.reg.clear(); w.dflt = -1; break;
        case 9: case 10: { mc::op("set_default_logger(new %s)", NM[o - 9]); int i = w.make(o - 9, ""); set_default_logger(w.all[i].p); w.reg[NM[o - 9]] = i; w.dflt = i; break; }
        case 11: { if (!w.reg.count("A")) return false; mc::op("set_default_logger(registered A)"); set_default_logger(get_logger("A")); w.dflt = w.reg["A"]; break; }
        case 12: mc::op("set_default_logger(nullptr)"); set_default_logger(nullptr); w.dflt = -1; break;
        case 13: case 14: w.gl = o == 13 ? 1 : 4; mc::op("set_global_log_level(%d)", w.gl); set_global_log_level((Lv)w.gl); for (auto& r : w.reg) w.all[r.second].level = w.gl; break;
        case 15: case 16: w.gf = o == 15 ? 3 : 6; mc::op("set_global_flush_level(%d)", w.gf); set_global_flush_level((Lv)w.gf); for (auto& r : w.reg) w.all[r.second].flush = w.gf; break;
        case 17: case 18: w.gp = PT[o - 17]; w.gshape = shape_of(w.gp, "\n"); mc::op("set_global_pattern(%s)", w.gp.c_str()); set_global_pattern(w.gp); for (auto& r : w.reg) { w.all[r.second].pattern = w.gp; w.all[r.second].shape = w.gshape; } break;
        case 19: { mc::op("set_global_formatter(%%n.%%v, eol <F>)"); w.gshape = shape_of("%n.%v", "<F>"); set_global_formatter(formatter_uni_ptr(new sinks::pattern_formatter("%n.%v", "<F>"))); for (auto& r : w.reg) w.all[r.second].shape = w.gshape; break; }
        case 20: mc::op("set_pattern(A, one%%v)"); set_pattern("A", "one%v"); if (!w.reg.count("A")) w.reports++; else { Lg& l = w.all[w.reg["A"]]; l.pattern = "one%v"; l.shape = shape_of("one%v", "\n"); } break;
        case 21: mc::op("set_log_level(A, warn)"); set_log_level("A", level::warn); if (!w.reg.count("A")) w.reports++; else w.all[w.reg["A"]].level = 3; break;
        case 22: mc::op("set_flush_level(B, debug)"); set_flush_level("B", level::debug); if (!w.reg.count("B")) w.reports++; else w.all[w.reg["B"]].flush = 1; break;
        case 23: { if (w.all.empty()) return false; mc::op("newest logger: set_pattern, levels"); Lg& l = w.all.back(); l.p->set_pattern("mine%v"); l.pattern = "mine%v"; l.shape = shape_of("mine%v", "\n"); l.p->set_log_level(level::trace); l.level = 0; l.p->set_flush_level(level::info); l.flush = 2; break; }
    }
    return true;
}
static const int NOP = 24;
MC_SCENARIO(sequences, 3, 4, 0, 0, 0) {
    reset(); World w; for (int i = 0; i < mc::depth(); i++) { if (!step(w, mc::choose(NOP))) return; w.check(); }
    mc::outcome(w.canon()); remove_all();
}
// longer sequences, each observable state followed once
MC_SCENARIO(states, 5, 6, 0, 0, 0) {
    reset(); World w; for (int i = 0; i < mc::depth(); i++) { mc::state(w.canon(), mc::depth() - i); if (!step(w, mc::choose(NOP))) return; if (w.all.size() > 3) return; w.check(); }
    mc::outcome(w.canon()); remove_all();
}
// settings made before and after; two loggers made from the same settings do not share a formatter
MC_SCENARIO(settings, 4, 5, 0, 0, 0) {
    static const int O[] = {0, 1, 5, 13, 14, 15, 17, 18, 19, 20, 21, 8}; reset(); World w;
    for (int i = 0; i < mc::depth(); i++) { if (!step(w, O[mc::choose(12)])) return; w.check(); }
    mc::outcome(w.canon()); remove_all();
}
// every value of every setting, before and after another one, for loggers there before and loggers made later
MC_SCENARIO(values, 0, 0, 0, 0, 0) {
    static const char* P[] = {"", "%v", "plain", "%l%", "%+", "%n-%v\n", "a b%%", " "}; reset(); World w; step(w, 0); int k = mc::choose(6), a, b; bool again = mc::choose(2); if (k % 3 == 2) { a = mc::choose(8); b = mc::choose(8); } else { a = mc::choose(7); b = mc::choose(7); }
    auto shp = [&](const char* p) { return std::string(p) == "%l%" ? std::string("warn\n") : std::string(p) == "a b%%" ? std::string("a b%\n") : shape_of(p, "\n"); };
    auto put = [&](int v) { mc::op("setting %d: value %d", k, v); switch (k) {
        case 0: w.gl = v; set_global_log_level((Lv)v); for (auto& r : w.reg) w.all[r.second].level = v; break;
        case 1: w.gf = v; set_global_flush_level((Lv)v); for (auto& r : w.reg) w.all[r.second].flush = v; break;
        case 2: w.gp = P[v]; w.gshape = shp(P[v]); set_global_pattern(P[v]); for (auto& r : w.reg) { w.all[r.second].pattern = w.gp; w.all[r.second].shape = w.gshape; } break;
        case 3: set_log_level("A", (Lv)v); w.all[0].level = v; break;
        case 4: set_flush_level("A", (Lv)v); w.all[0].flush = v; break;
        case 5: set_pattern("A", P[v]); w.all[0].pattern = P[v]; w.all[0].shape = shp(P[v]); break; } };
    put(a); w.check(); step(w, 1); w.check(); if (again) { step(w, 6); step(w, 0); w.check(); if (k > 2) { remove_all(); return; } } put(b); w.check(); step(w, 7); step(w, 1); w.check(); mc::outcome(w.canon()); remove_all();
}
// names are compared as a whole, whatever they consist of
MC_SCENARIO(names, 0, 0, 0, 0, 0) {
    static const std::string N[] = {"", "a", "A", "ab", "a ", " a", std::string("a\0", 2), std::string("a\0b", 3), std::string(1, 0), "default_logger", "\xc3\xa9", "e", "%n{}", std::string(15, 'a'), std::string(16, 'a'), std::string(300, 'a'), std::string(300, 'a') + "b", std::string(70000, 'a'), "a\n"};
    const int K = 19; const std::string &a = N[mc::choose(K)], &b = N[mc::choose(K)]; int how = mc::choose(3); if (a == b) return; reset(); auto sa = std::make_shared<RecSink>(), sb = std::make_shared<RecSink>(); logger_shr_ptr la, lb; Err err; mc::op("loggers %s and %s", mc::quote(a.substr(0, 20)).c_str(), mc::quote(b.substr(0, 20)).c_str());
    if (how == 0) { la = std::make_shared<logger>(a, sa); register_logger(la); } else if (how == 1) la = ll::create<RecSink>(a); else { la = std::make_shared<logger>(a, sa); set_default_logger(la); } lb = std::make_shared<logger>(b, sb); register_logger(lb);
    auto has = [&](const logger_shr_ptr& x, const logger_shr_ptr& y) { for (auto& n : N) { auto g = get_logger(n); auto w = n == a ? x : n == b ? y : nullptr; MC_CHECK(g == w, "get_logger(%s) finds %s", mc::quote(n.substr(0, 20)).c_str(), !g ? "nothing" : mc::quote(g->name().substr(0, 20)).c_str()); } };
    has(la, lb); set_log_level(a, level::error); set_flush_level(a, level::warn); set_pattern(a, "x%v"); MC_CHECK(la->get_log_level() == level::error && la->get_flush_level() == level::warn && la->get_pattern() == "x%v" && lb->get_log_level() == level::info && lb->get_flush_level() == level::off && lb->get_pattern() == "%+", "a setting reached the wrong logger");
    MC_CHECK(err.reports() == 0, "reported: %s", err.text().substr(0, 300).c_str()); register_logger(std::make_shared<logger>(b, sb)); MC_CHECK(err.reports() == 1, "a second logger of one name: %d reports", err.reports()); has(la, lb);
    remove_logger(a); has(nullptr, lb); MC_CHECK(get_default_logger() == nullptr, "default logger"); register_logger(la); has(la, lb); remove_logger(b); has(la, nullptr); lb->warn("x"); la->error("y"); MC_CHECK(sb->recs.size() == 1 && sb->recs[0].name == b, "the message says %s", mc::quote(sb->recs[0].name.substr(0, 20)).c_str()); mc::outcome(a.substr(0, 9) + "/" + b.substr(0, 9)); remove_all();
}
// hundreds of loggers
MC_SCENARIO(many, 4, 6, 0, 0, 0) {
    static const int NN[] = {3, 17, 65, 257, 1000}; int n = NN[mc::choose(5)]; reset(); std::vector<Lg> l(n); std::vector<char> reg(n, 1); for (int i = 0; i < n; i++) { l[i].name = "n" + std::to_string(i); l[i].s = std::make_shared<RecSink>(); l[i].p = std::make_shared<logger>(l[i].name, l[i].s); register_logger(l[i].p); }
    for (int k = 0; k < mc::depth(); k++) {
        switch (mc::choose(6)) {
            case 0: mc::op("remove every third"); for (int i = k % 3; i < n; i += 3) { remove_logger(l[i].name); reg[i] = 0; } break;
            case 1: mc::op("register all that are not there"); for (int i = n; i--; ) if (!reg[i]) { register_logger(l[i].p); reg[i] = 1; } break;
            case 2: mc::op("flush all"); flush_all(); for (int i = 0; i < n; i++) if (reg[i]) l[i].flushes++; break;
            case 3: mc::op("global level %d", k); set_global_log_level((Lv)k); for (int i = 0; i < n; i++) if (reg[i]) l[i].level = k; break;
            case 4: mc::op("global pattern"); set_global_pattern("%v" + std::to_string(k)); for (int i = 0; i < n; i++) if (reg[i]) { l[i].pattern = "%v" + std::to_string(k); l[i].shape = "msg" + std::to_string(k) + "\n"; } break;
            case 5: mc::op("global flush level, and each logs"); set_global_flush_level(level::critical); for (int i = 0; i < n; i++) { if (reg[i]) l[i].flush = 5; l[i].p->critical("x"); if (l[i].flush == 5) l[i].flushes++; } break; }
        std::set<logger*> seen, want; int calls = 0; exec_all([&](logger_shr_ptr p) { seen.insert(p.get()); calls++; });
        for (int i = 0; i < n; i++) { if (reg[i]) want.insert(l[i].p.get()); MC_CHECK(get_logger(l[i].name) == (reg[i] ? l[i].p : nullptr), "get_logger(%s)", l[i].name.c_str()); MC_CHECK(l[i].s->flushes == l[i].flushes && l[i].p->get_log_level() == l[i].level && l[i].p->get_flush_level() == l[i].flush && l[i].p->get_pattern() == l[i].pattern && shape(*l[i].s) == l[i].shape, "logger %d of %d: flushed %d times (%d), levels %d %d (%d %d), pattern %s (%s)", i, n, l[i].s->flushes, l[i].flushes, (int)l[i].p->get_log_level(), (int)l[i].p->get_flush_level(), l[i].level, l[i].flush, l[i].p->get_pattern().c_str(), l[i].pattern.c_str()); }
        MC_CHECK(seen == want && calls == (int)want.size(), "exec_all() visits %d loggers, %zu are registered", calls, want.size());
    }
    mc::outcome(std::to_string(n)); remove_all();
}
// loggers with several sinks and a formatter of the user's own kind that counts: each sink gets one of its own
struct OwnFmt : sinks::formatter {
    std::string tag; int n = 0; explicit OwnFmt(std::string t) : tag(std::move(t)) {}
    void format(const base::log_msg& m, fmt_memory_buf& b) override { std::string o = tag + std::to_string(n++) + ":" + std::string(m.msg.data(), m.msg.size()); b.append(o.data(), o.data() + o.size()); }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new OwnFmt(*this)); }
};
MC_SCENARIO(formatters, 4, 5, 0, 0, 0) {
    static const char* N[3] = {"A", "B", "C"}; struct Sk { std::shared_ptr<RecSink> s; std::string tag, shape; int n; }; struct L { logger_shr_ptr p; std::vector<Sk> s; bool reg; }; reset(); std::vector<L> l; std::string gtag, gshape = "-"; int serial = 0;
    auto make = [&](int i) { L x; int k = mc::choose(4); std::vector<sink_shr_ptr> v; for (int j = 0; j < k; j++) { auto s = std::make_shared<RecSink>(); x.s.push_back({s, "", "none", 0}); v.push_back(s); } x.p = std::make_shared<logger>(N[i], v.begin(), v.end()); x.reg = false; l.push_back(x); return &l.back(); };
    auto give = [&](L& x, const std::string& tag, const std::string& sh) { for (auto& k : x.s) { k.tag = tag; k.shape = sh; k.n = 0; } };
    { L* x = make(0); register_logger(x->p); x->reg = true; }
    for (int d = 0; d < mc::depth(); d++) {
        switch (mc::choose(5)) {
            case 0: { gtag = "g" + std::to_string(++serial) + "/"; gshape = ""; mc::op("set_global_formatter(own %s)", gtag.c_str()); set_global_formatter(formatter_uni_ptr(new OwnFmt(gtag))); for (auto& x : l) if (x.reg) give(x, gtag, ""); break; }
            case 1: { gtag = ""; gshape = "msg" + std::to_string(++serial) + "\n"; mc::op("set_global_pattern"); set_global_pattern("%v" + std::to_string(serial)); for (auto& x : l) if (x.reg) give(x, "", gshape); break; }
            case 2: { L& x = l[mc::choose((int)l.size())]; std::string t = "o" + std::to_string(++serial) + "/"; mc::op("logger %s: set_formatter(own %s)", x.p->name().c_str(), t.c_str()); x.p->set_formatter(formatter_uni_ptr(new OwnFmt(t))); give(x, t, ""); break; }
            case 3: { L& x = l[mc::choose((int)l.size())]; std::string t = "msg!" + std::to_string(++serial) + "\n"; mc::op("logger %s: set_pattern", x.p->name().c_str()); x.p->set_pattern("%v!" + std::to_string(serial)); give(x, "", t); break; }
            default: { if (l.size() == 3) return; bool init = mc::choose(2); L* x = make((int)l.size()); mc::op("%s %s with %zu sinks", init ? "initialize" : "register", x->p->name().c_str(), x->s.size()); x->reg = true; if (init) { initialize_logger(x->p); give(*x, gtag, gshape == "-" ? "*" : gshape); } else register_logger(x->p); } }
        for (auto& x : l) for (size_t j = 0; j < x.s.size(); j++) { Sk& k = x.s[j]; std::string got = k.s->shape(), want = k.tag.empty() ? k.shape : k.tag + std::to_string(k.n++) + ":msg"; MC_CHECK(got == want || k.shape == "*", "logger %s, sink %zu of %zu formats as %s, expected %s", x.p->name().c_str(), j, x.s.size(), mc::quote(got).c_str(), mc::quote(want).c_str()); }
    }
    mc::outcome(std::to_string(l.size()) + std::to_string(serial)); remove_all();
}
// a process's first steps: the default logger and the initial settings
MC_SCENARIO(initial, 2, 2, 0, 0, mc::F_FORK) {
    int o = mc::choose(5);
    auto d = get_default_logger(); if (o == 0) { MC_CHECK(d && d->name() == "default_logger" && d->sinks().size() == 1, "no default logger at the start"); MC_CHECK(get_logger("default_logger") == d, "the default logger is not registered"); MC_CHECK(d->get_log_level() == level::info && d->get_flush_level() == level::off, "default levels"); MC_CHECK(!d->is_async(), "async default"); }
    if (o == 1) { remove_logger("default_logger"); MC_CHECK(!get_default_logger() && !get_logger("default_logger"), "default logger still there"); }
    if (o == 2) { set_global_log_level(level::error); MC_CHECK(d->get_log_level() == level::error, "global level not applied to the default logger"); }
    if (o == 3) { set_global_pattern("%v!"); MC_CHECK(d->get_pattern() == "%v!", "global pattern not applied to the default logger"); }
    World w; w.reports = 0;
    if (o >= 2) { auto p = ll::create<RecSink>("A"); MC_CHECK(get_logger("A") == p, "created logger not found"); MC_CHECK(p->get_log_level() == (o == 2 ? level::error : level::info), "level of a new logger"); auto s = std::static_pointer_cast<RecSink>(p->sinks()[0]); std::string sh = shape(*s); MC_CHECK(sh == (o == 3 ? "msg!\n" : "+\n"), "a new logger formats as %s", mc::quote(sh).c_str()); MC_CHECK(get_default_logger() == d, "default logger changed"); }
    mc::outcome(std::to_string(o));
}
