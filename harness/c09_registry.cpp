// C09: the registry may be used by any number of threads: its operations take effect one at a time, and loggers that are
// replaced, removed or made default meanwhile lose no message.
#include "async_common.h"
#include "lin.h"
#include <cstring>
#include "base/registry.h"
#include "base/exception.h"
#include "sinks/formatters/pattern_formatter.h"
#include "logger.h"
#include <set>
static thread_local std::vector<int>* flushed;
struct IdSink : CapSink { int id; std::string shape; explicit IdSink(int i) : id(i) {} void flush() override { if (flushed) flushed->push_back(id); }
    void set_formatter(ll::formatter_uni_ptr f) override { ll::base::log_msg m(ll::level::warn, "x", "n"); ll::fmt_memory_buf b; f->format(m, b); std::lock_guard<std::mutex> g(CapSink::m); shape.assign(b.data(), b.size()); } };
static const int NL = 4; static const char* const NAME[NL] = {"A", "A", "B", "B"};
static const char* const PAT[3] = {"0%v", "1%v", "2%v"};
struct World { std::vector<ll::logger_shr_ptr> l; std::vector<std::shared_ptr<IdSink>> s; std::vector<LinOp> h; std::mutex m; };
static World* W;
static ll::base::registry& R() { return ll::base::registry::instance(); }
static int idof(const ll::logger_shr_ptr& p) { if (!p) return -1; for (int i = 0; i < NL; i++) if (W->l[i] == p) return i; return 99; }
enum { REG, INIT, GET, REMOVE, GETDEF, SETDEF, GLEVEL, LEVEL, GFLUSH, GPAT, ALL, FLUSH, CLEAR, AUTO, PAT1, GFMT, FLEVEL };
struct Model {
    int map[2], def, gl, gf, gp, lev[NL], fl[NL], pat[NL], fm[NL], gm; bool autoreg;
    Model() : def(-1), gl(0), gf(0), gp(0), gm(0), autoreg(true) { map[0] = map[1] = -1; for (int i = 0; i < NL; i++) lev[i] = 2, fl[i] = 6, pat[i] = 0, fm[i] = 0; }
    static int n(int id) { return id / 2; }
    long snap() const { long r = 0; for (int k = 0; k < 2; k++) { r = r * 5 + (map[k] + 1); if (map[k] >= 0) r = r * 100 + lev[map[k]] * 10 + fl[map[k]]; } return r; }
    long ids() const { return (map[0] + 1) * 5 + map[1] + 1; }
    bool apply(const LinOp& o) {
        switch (o.kind) {
            case REG: case INIT: if (o.kind == INIT) { lev[o.a] = gl; fl[o.a] = gf; pat[o.a] = gp; fm[o.a] = gm; if (!autoreg) return o.res == 0; } if (map[n(o.a)] >= 0) return o.res == 1; map[n(o.a)] = o.a; return o.res == 0;
            case GET: return o.res == map[o.a];
            case REMOVE: map[o.a] = -1; if (def >= 0 && n(def) == o.a) def = -1; return true;
            case GETDEF: return o.res == def;
            case SETDEF: def = o.a; if (o.a >= 0) map[n(o.a)] = o.a; return true;
            case GLEVEL: gl = o.a; for (int k = 0; k < 2; k++) if (map[k] >= 0) lev[map[k]] = o.a; return true;
            case LEVEL: if (map[o.a] < 0) return o.res == 1; lev[map[o.a]] = o.b; return o.res == 0;
            case GFLUSH: gf = o.a; for (int k = 0; k < 2; k++) if (map[k] >= 0) fl[map[k]] = o.a; return true;
            case GPAT: gp = gm = o.a; for (int k = 0; k < 2; k++) if (map[k] >= 0) pat[map[k]] = fm[map[k]] = o.a; return true;
            case GFMT: gm = o.a; for (int k = 0; k < 2; k++) if (map[k] >= 0) fm[map[k]] = o.a; return true;
            case FLEVEL: if (map[o.a] < 0) return o.res == 1; fl[map[o.a]] = o.b; return o.res == 0;
            case PAT1: if (map[o.a] < 0) return o.res == 1; pat[map[o.a]] = fm[map[o.a]] = o.b; return o.res == 0;
            case ALL: return o.res == snap();
            case FLUSH: return o.res == ids();
            case CLEAR: map[0] = map[1] = def = -1; return true;
            case AUTO: autoreg = o.a; return true;
        } return false;
    }
};
// returns the recorded result
static long snapshot(const std::vector<int>& ids, const std::vector<int>& lev, const std::vector<int>& fl) { int at[2] = {-1, -1}, bad = 0; for (size_t i = 0; i < ids.size(); i++) { if (ids[i] < 0 || ids[i] > 3 || at[ids[i] / 2] >= 0) bad = 1; else at[ids[i] / 2] = (int)i; } if (bad) return -1; long r = 0; for (int k = 0; k < 2; k++) { r = r * 5 + (at[k] < 0 ? 0 : ids[at[k]] + 1); if (at[k] >= 0 && !lev.empty()) r = r * 100 + lev[at[k]] * 10 + fl[at[k]]; } return r; }
#define TRY(x) try { x; } catch (const std::exception&) { o.res = 1; }
static void perform(int kind, int a, int b) {
    LinOp o; o.kind = kind; o.a = a; o.b = b; o.tid = lmc::self(); uint64_t call; lmc::stamp_call(&call);
    switch (kind) {
        case REG: TRY(R().register_logger(W->l[a])) break; case INIT: TRY(R().initialize_logger(W->l[a])) break;
        case GET: o.res = idof(R().get_logger(a ? "B" : "A")); break; case REMOVE: R().remove_logger(a ? "B" : "A"); break;
        case GETDEF: o.res = idof(R().get_default_logger()); break; case SETDEF: R().set_default_logger(a < 0 ? nullptr : W->l[a]); break;
        case GLEVEL: R().set_global_log_level((ll::level::level_enum)a); break; case GFLUSH: R().set_global_flush_level((ll::level::level_enum)a); break; case GPAT: R().set_global_pattern(PAT[a]); break;
        case LEVEL: TRY(R().set_log_level(a ? "B" : "A", (ll::level::level_enum)b)) break; case PAT1: TRY(R().set_pattern(a ? "B" : "A", PAT[b])) break;
        case GFMT: R().set_global_formatter(ll::make_unique<ll::sinks::pattern_formatter>(PAT[a])); break; case FLEVEL: TRY(R().set_flush_level(a ? "B" : "A", (ll::level::level_enum)b)) break;
        case ALL: { std::vector<int> i, l, f; R().exec_all([&](ll::logger_shr_ptr p) { i.push_back(idof(p)); l.push_back(p->get_log_level()); f.push_back(p->get_flush_level()); }); o.res = snapshot(i, l, f); break; }
        case FLUSH: { std::vector<int> v; flushed = &v; R().flush_all(); flushed = nullptr; o.res = snapshot(v, {}, {}); break; }
        case CLEAR: R().remove_all(); break; case AUTO: R().set_auto_register_logger(a); break;
    }
    o.ret = lmc::stamp_ret(); o.call = call; lmc::note("operation %d(%d,%d) = %ld", kind, a, b, o.res); std::lock_guard<std::mutex> g(W->m); W->h.push_back(o);
}
struct Op { int k, a, b; };
static const Op OPS[] = {{REG, 0, 0}, {REG, 2, 0}, {INIT, 1, 0}, {INIT, 3, 0}, {GET, 0, 0}, {GET, 1, 0}, {REMOVE, 0, 0}, {GETDEF, 0, 0}, {SETDEF, 1, 0}, {SETDEF, 2, 0}, {SETDEF, -1, 0}, {GLEVEL, 4, 0}, {LEVEL, 0, 3}, {GFLUSH, 3, 0}, {GPAT, 1, 0}, {ALL, 0, 0}, {FLUSH, 0, 0}, {CLEAR, 0, 0}, {AUTO, 0, 0}, {PAT1, 0, 2}, {GFMT, 2, 0}, {FLEVEL, 0, 4}};
static const Op SOME[] = {{REG, 1, 0}, {INIT, 0, 0}, {GET, 0, 0}, {REMOVE, 0, 0}, {GETDEF, 0, 0}, {SETDEF, 0, 0}, {GLEVEL, 4, 0}, {LEVEL, 0, 3}, {ALL, 0, 0}, {CLEAR, 0, 0}};
static std::string text(const std::vector<LinOp>& h) { static const char* const N[] = {"register", "initialize", "get", "remove", "get_default", "set_default", "set_global_log_level", "set_log_level", "set_global_flush_level", "set_global_pattern", "exec_all", "flush_all", "remove_all", "set_auto_register", "set_pattern", "set_global_formatter", "set_flush_level"}; std::string s; for (auto& o : h) s += "t" + std::to_string(o.tid) + " " + N[o.kind] + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")=" + std::to_string(o.res) + "; "; return s; }
static void setup(World& w, Model& m) {
    W = &w; for (int i = 0; i < NL; i++) { w.s.push_back(std::make_shared<IdSink>(i)); w.l.push_back(std::make_shared<ll::logger>(NAME[i], w.s[i])); w.l[i]->set_pattern(PAT[0]); }
    R().remove_all(); R().set_global_log_level(ll::level::trace); R().set_global_flush_level(ll::level::trace); R().set_global_pattern(PAT[0]);
    int k = lmc::choose(3); if (k) { R().register_logger(w.l[0]); m.map[0] = 0; } if (k == 1) { R().set_default_logger(w.l[0]); m.def = 0; } if (k == 2) { R().register_logger(w.l[3]); m.map[1] = 3; }
}
static void finish(World& w, const Model& m) {
    perform(GET, 0, 0); perform(GET, 1, 0); perform(GETDEF, 0, 0); perform(ALL, 0, 0); perform(FLUSH, 0, 0); LMC_CHECK(linearizable(w.h, m), "no order of the operations explains their results: %s", text(w.h).c_str());
    // the settings of every logger, in and out of the registry, and the references held: of some explaining order
    struct Fin : Model { World* w; Fin(const Model& m, World* w) : Model(m), w(w) {} bool apply(const LinOp& o) { return o.kind == 1000 ? good() : Model::apply(o); }
        bool good() { for (int i = 0; i < NL; i++) { if (w->l[i]->get_log_level() != lev[i] || w->l[i]->get_flush_level() != fl[i] || w->l[i]->get_pattern() != PAT[pat[i]] || w->s[i]->shape != std::string(1, PAT[fm[i]][0]) + "x\n") return false; if (w->l[i].use_count() != 1 + (map[i / 2] == i) + (def == i)) return false; } return true; } };
    LinOp o; o.kind = 1000; o.call = w.h.back().ret + 1; o.ret = o.call + 1; std::vector<LinOp> h = w.h; h.push_back(o); std::string st; for (int i = 0; i < NL; i++) st += " " + std::to_string(w.l[i]->get_log_level()) + "/" + std::to_string(w.l[i]->get_flush_level()) + "/" + w.l[i]->get_pattern() + "/" + w.s[i]->shape[0] + "/" + std::to_string(w.l[i].use_count()); LMC_CHECK(linearizable(h, Fin(m, &w)), "no order of the operations explains the loggers' settings and references (%s): %s", st.c_str(), text(w.h).c_str());
    std::string out; for (auto& x : w.h) out += std::to_string(x.kind) + ":" + std::to_string(x.res) + " "; lmc::outcome(out + st); R().remove_all();
}
template <size_t K> static void sets(const Op (&tab)[K], int T, int N) {
    World w; Model m; setup(w, m); std::vector<std::vector<Op>> prog(T); for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) prog[t].push_back(tab[lmc::choose(K)]);
    std::vector<std::thread> th; for (int t = 1; t < T; t++) th.emplace_back([&, t] { for (auto& o : prog[t]) perform(o.k, o.a, o.b); }); for (auto& o : prog[0]) perform(o.k, o.a, o.b); for (auto& t : th) t.join(); finish(w, m);
}
static const Op FEW[] = {{REG, 1, 0}, {INIT, 0, 0}, {REMOVE, 0, 0}, {SETDEF, 0, 0}, {LEVEL, 0, 3}, {ALL, 0, 0}};
LMC_SCENARIO(pairs, 1, 6, 0) { sets(OPS, 2, 1); }
LMC_SCENARIO(triples, 1, 2, 0) { sets(FEW, 3, 1); }
static const Op FOUR[] = {{REG, 1, 0}, {REMOVE, 0, 0}, {SETDEF, 0, 0}, {GLEVEL, 4, 0}};
LMC_SCENARIO(two_each, 1, 2, 0) { sets(FOUR, 2, 2); }
LMC_SCENARIO(two_each_six, -1, 2, 0) { sets(FEW, 2, 2); }
LMC_SCENARIO(triples_more, -1, 1, 0) { sets(SOME, 3, 1); }
LMC_SCENARIO(two_each_more, -1, 1, 0) { sets(SOME, 2, 2); }
// one name, several candidates: exactly one is registered, the others are told
LMC_SCENARIO(same_name, 3, 6, 0) {
    R().remove_all(); std::vector<ll::logger_shr_ptr> g; int how = lmc::choose(3); for (int i = 0; i < 3; i++) g.push_back(std::make_shared<ll::logger>("N", std::make_shared<CapSink>())); std::atomic<int> refused(0); std::atomic<int> won(-1);
    auto one = [&](int i) { try { if (how == 0) R().register_logger(g[i]); else if (how == 1) R().initialize_logger(g[i]); else if (i) R().initialize_logger(g[i]); else R().register_logger(g[i]); won = i; } catch (const std::exception& e) { refused++; LMC_CHECK(strstr(e.what(), "'N'"), "the report does not name the logger: %s", e.what()); } };
    std::thread a([&] { one(1); }), b([&] { one(2); }); one(0); a.join(); b.join(); LMC_CHECK(refused == 2 && R().get_logger("N") == g[won], "%d of 3 refused", (int)refused); lmc::outcome(std::to_string(won)); R().remove_all();
}
// loggers made through the factory by several threads while global settings change: each has the old or the new settings, completely,
// and later changes reach all of them
LMC_SCENARIO(create_while_set, 2, 4, 0) {
    R().remove_all(); R().set_global_pattern(PAT[0]); R().set_global_log_level(ll::level::trace); int k = lmc::choose(3); ll::logger_shr_ptr g[2]; struct Mk : IdSink { Mk() : IdSink(0) {} };
    std::thread a([&] { g[1] = ll::create<Mk>("B"); }), b([&] { if (k == 0) R().set_global_pattern(PAT[1]); if (k == 1) R().set_global_log_level(ll::level::warn); if (k == 2) R().set_global_flush_level(ll::level::warn); }); g[0] = ll::create<Mk>("A"); a.join(); b.join();
    for (auto& x : g) { auto s = std::static_pointer_cast<Mk>(x->sinks()[0]); LMC_CHECK(R().get_logger(x->name()) == x, "%s not registered", x->name().c_str()); LMC_CHECK(x->get_pattern() == PAT[k == 0] && s->shape == std::string(k == 0 ? "1" : "0") + "x\n" && x->get_log_level() == (k == 1 ? 3 : 0) && x->get_flush_level() == (k == 2 ? 3 : 6), "logger %s: pattern %s, formats as %s, levels %d %d after the global setting was changed", x->name().c_str(), x->get_pattern().c_str(), s->shape.c_str(), (int)x->get_log_level(), (int)x->get_flush_level()); }
    lmc::outcome(std::to_string(k)); R().remove_all();
}
// free functions log through the default logger while it is replaced, removed from the map, or settings change: each message exactly
// once, to a logger that was the default during the call
LMC_SCENARIO(default_replaced, 3, 6, 0) {
    R().remove_all(); auto a = std::make_shared<CapSink>(), b = std::make_shared<CapSink>(); { auto d = std::make_shared<ll::logger>("D", a); R().set_default_logger(d); } int same = lmc::choose(2), P = 2;
    std::thread w([&] { R().set_default_logger(std::make_shared<ll::logger>(same ? "D" : "E", b)); }), u([&] { ll::info(ll::fmt_string_view("p1m0")); ll::warn(ll::fmt_string_view("p1m1")); }); ll::error(ll::fmt_string_view("p0m0")); u.join(); w.join(); ll::info(ll::fmt_string_view("p0m1"));
    for (int p = 0; p < P; p++) for (int i = 0; i < 2; i++) LMC_CHECK(a->count(mtext(p, i)) + b->count(mtext(p, i)) == 1, "message %s: %zu times to the old, %zu times to the new default logger", mtext(p, i).c_str(), a->count(mtext(p, i)), b->count(mtext(p, i)));
    LMC_CHECK(b->count("p0m1") == 1, "after the replacement a message went to the old default logger"); LMC_CHECK(!(b->count("p1m0") && a->count("p1m1")), "back to the old default logger"); LMC_CHECK(a.use_count() == (same ? 1 : 2), "old default logger is%s held", same ? "" : " not"); lmc::outcome(show(a->recs) + "/" + show(b->recs)); R().remove_all();
}
// a logger is removed, with its last reference elsewhere, while another thread looks it up and logs, flushes or visits all
LMC_SCENARIO(remove_in_use, 3, 6, 0) {
    R().remove_all(); auto s = std::make_shared<CapSink>(); int how = lmc::choose(3), what = lmc::choose(4); std::atomic<int> got(0); { auto g = std::make_shared<ll::logger>("A", s); if (how == 2) R().set_default_logger(g); else R().register_logger(g); }
    std::thread t([&] { if (what == 0) { if (auto g = R().get_logger("A")) { got++; g->info(ll::fmt_string_view("p0m0")); } if (auto g = R().get_logger("A")) { got++; g->info(ll::fmt_string_view("p0m1")); } } else if (what == 1) R().exec_all([&](ll::logger_shr_ptr g) { got++; g->info(ll::fmt_string_view("p0m0")); }); else if (what == 2) { R().flush_all(); got = (int)s->flush_at.size(); } else if (auto g = R().get_default_logger()) { got++; g->warn(ll::fmt_string_view("p0m0")); } });
    if (how == 0) R().remove_logger("A"); else if (how == 1) R().remove_all(); else R().set_default_logger(nullptr), R().remove_logger("A"); t.join();
    if (what == 2) LMC_CHECK(s->flush_at.size() <= 1, "flushed %zu times", s->flush_at.size()); else LMC_CHECK((int)s->recs.size() == got, "%d messages logged, %zu delivered", (int)got, s->recs.size()); LMC_CHECK(!R().get_logger("A"), "still registered"); LMC_CHECK(s.use_count() == 1, "the removed logger still exists"); lmc::outcome(std::to_string(got));
}
// an asynchronous logger that is removed, or replaced as default, goes once its messages are written, though the pool lives on
template <class Pool> static void async_ends(int workers) {
    R().remove_all(); std::weak_ptr<CapSink> w; std::weak_ptr<ll::logger> lw; auto s = std::make_shared<CapSink>(); int how = lmc::choose(3), n = lmc::choose(3); auto tp = std::make_shared<Pool>(64, workers);
    { auto g = std::make_shared<ll::async_logger>("A", s, tp); lw = g; if (how == 2) R().set_default_logger(g); else R().register_logger(g); for (int i = 0; i < n; i++) g->log(ll::level::info, ll::fmt_string_view(mtext(0, i))); }
    if (how == 0) R().remove_logger("A"); else if (how == 1) R().remove_all(); else R().set_default_logger(nullptr), R().remove_logger("A");
    std::this_thread::sleep_for(std::chrono::hours(1)); { std::lock_guard<std::mutex> l(s->m); LMC_CHECK((int)s->recs.size() == n, "%zu of %d messages written after an hour", s->recs.size(), n); } LMC_CHECK(lw.expired(), "the removed logger still exists"); LMC_CHECK(s.use_count() == 1, "the sink of the removed logger is still held"); tp.reset(); lmc::outcome(std::to_string(how) + std::to_string(n));
}
LMC_SCENARIO(async_ends_lock, 1, 3, 0) { async_ends<LockPool>(1 + lmc::choose(2)); }
LMC_SCENARIO(async_ends_free, 0, 1, 0) { async_ends<FreePool>(1); }
LMC_SCENARIO(async_ends_conc, 1, 2, 0) { async_ends<ConcPool>(1 + lmc::choose(2)); }
// the very first use of the library, in several threads at once
LMC_SCENARIO(first_use, 2, 4, 0) {
    ll::logger_shr_ptr d[2]; int k = lmc::choose(3); auto s = std::make_shared<CapSink>(); std::thread t([&] { if (k == 0) d[1] = ll::get_default_logger(); else if (k == 1) ll::register_logger(std::make_shared<ll::logger>("A", s)); else d[1] = ll::create<CapSink>("B"); }); d[0] = ll::get_default_logger(); t.join();
    LMC_CHECK(d[0] && d[0]->name() == "default_logger", "no default logger"); LMC_CHECK(ll::get_logger("default_logger") == d[0], "default logger not registered"); if (k == 0) LMC_CHECK(d[0] == d[1], "two default loggers"); if (k == 1) LMC_CHECK(ll::get_logger("A"), "not registered"); if (k == 2) LMC_CHECK(ll::get_logger("B") == d[1], "not registered"); lmc::outcome(std::to_string(k));
}
// the library is shut down while other threads use the registry
LMC_SCENARIO(closing, 2, 4, 0) {
    R().remove_all(); auto s = std::make_shared<CapSink>(); auto g = std::make_shared<ll::logger>("A", s); R().register_logger(g); int what = lmc::choose(5); std::thread t([&] { if (what == 0) { g->info(ll::fmt_string_view("p0m0")); } if (what == 1) R().flush_all(); if (what == 2) R().get_logger("A"); if (what == 3) R().register_logger(std::make_shared<ll::logger>("B", s)); if (what == 4) R().flush_every(std::chrono::seconds(1)); }); ll::close(); t.join(); LMC_CHECK(!ll::get_logger("A") && !ll::get_default_logger() && !ll::get_thread_pool(), "still there after close()"); if (what == 0) check_once(*s, 1, 1, "logged while closing"); lmc::outcome(std::to_string(!!ll::get_logger("B")) + std::to_string(s->flush_at.size())); ll::close();
}
