// S11: copies, clones, moves and swaps of loggers.
#include "seqlib.h"
using namespace ll;
struct M { std::string name; std::vector<int> sinks; int level, flush; std::string pattern; bool dead; M(std::string n, std::vector<int> s, int l, int f, std::string p) : name(n), sinks(s), level(l), flush(f), pattern(p), dead(false) {} };
static const char* PAT[] = {"<%v>", "[%n] %v", ""};
MC_SCENARIO(sequences, 4, 5, 0, 0, 0) {
    std::vector<std::shared_ptr<RecSink>> s; for (int i = 0; i < 3; i++) { s.push_back(std::make_shared<RecSink>()); s[i]->id = std::string(1, 'a' + i); }
    std::vector<std::unique_ptr<logger>> own; std::vector<logger_shr_ptr> shr; std::vector<logger*> L; std::vector<M> m; std::vector<std::string> shp(3, "none");
    own.emplace_back(new logger("one", {s[0], s[1]})); L.push_back(own.back().get()); m.push_back({"one", {0, 1}, 2, 6, "%+"});
    own.emplace_back(new logger("two", {s[2], s[2]})); L.push_back(own.back().get()); m.push_back({"two", {2, 2}, 2, 6, "%+"});
    int n = 0, depth = mc::depth();
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(2), o = mc::choose(10); if (L.size() > 4 && o < 3) return;
        // a non-default target: operations apply to the first or the newest logger
        size_t t = k ? L.size() - 1 : 0; if (m[t].dead) return;
        switch (o) {
            case 0: mc::op("copy %zu", t); own.emplace_back(new logger(*L[t])); L.push_back(own.back().get()); m.push_back(M(m[t])); break;
            case 1: { mc::op("clone %zu", t); std::string nn = "clone" + std::to_string(n++); shr.push_back(L[t]->clone(nn)); L.push_back(shr.back().get()); m.push_back(M(m[t])); m.back().name = nn; break; }
            case 2: { mc::op("move %zu", t); own.emplace_back(new logger(std::move(*L[t]))); L.push_back(own.back().get()); m.push_back(M(m[t])); m[t].dead = true; break; }
            case 3: { size_t u = (t + 1) % L.size(); if (m[u].dead || u == t) return; mc::op("%zu.swap(%zu)", t, u); L[t]->swap(*L[u]); std::swap(m[t], m[u]); break; }
            case 4: { size_t u = 1 % L.size(); if (m[u].dead || u == t) return; mc::op("swap(%zu, %zu)", t, u); swap(*L[t], *L[u]); std::swap(m[t], m[u]); break; }
            case 5: mc::op("%zu: level debug", t); L[t]->set_log_level(level::debug); m[t].level = 1; break;
            case 6: mc::op("%zu: flush level error", t); L[t]->set_flush_level(level::error); m[t].flush = 4; break;
            case 7: case 8: case 9: mc::op("%zu: pattern %d", t, o - 7); L[t]->set_pattern(PAT[o - 7]); m[t].pattern = PAT[o - 7]; for (int x : m[t].sinks) shp[x] = o == 7 ? "<msg>\n" : o == 8 ? "[nm] msg\n" : "\n"; break;
        }
        for (size_t j = 0; j < L.size(); j++) { if (m[j].dead) continue;
            MC_CHECK(L[j]->name() == m[j].name, "logger %zu: name %s, expected %s", j, L[j]->name().c_str(), m[j].name.c_str());
            MC_CHECK(L[j]->get_log_level() == m[j].level && L[j]->get_flush_level() == m[j].flush, "logger %zu: levels %d %d, expected %d %d", j, (int)L[j]->get_log_level(), (int)L[j]->get_flush_level(), m[j].level, m[j].flush);
            MC_CHECK(L[j]->get_pattern() == m[j].pattern, "logger %zu: pattern %s, expected %s", j, L[j]->get_pattern().c_str(), m[j].pattern.c_str());
            for (auto& x : s) { x->recs.clear(); x->flushes = 0; }
            std::string tx = "t" + std::to_string(j); L[j]->log(level::debug, fmt_string_view(tx)); L[j]->log(level::error, fmt_string_view(tx));
            for (int x = 0; x < 3; x++) { int in = (int)std::count(m[j].sinks.begin(), m[j].sinks.end(), x); size_t w = in * (m[j].level <= 1 ? 2 : 1);
                MC_CHECK(s[x]->recs.size() == w, "logger %zu: sink %d got %zu messages, expected %zu", j, x, s[x]->recs.size(), w);
                MC_CHECK((s[x]->flushes > 0) == (in && m[j].flush <= 4) && s[x]->flushes <= in, "logger %zu: sink %d flushed %d times", j, x, s[x]->flushes);
                if (w) MC_CHECK(s[x]->recs.back().name == m[j].name && s[x]->recs.back().text == tx, "logger %zu: message %s of logger %s", j, s[x]->recs.back().text.c_str(), s[x]->recs.back().name.c_str());
                std::string sh = s[x]->shape(); MC_CHECK(sh == shp[x], "sink %d formats as %s, expected %s", x, mc::quote(sh).c_str(), shp[x].c_str()); }
            mc::count(1); }
    }
    std::string h; for (auto& x : m) h += x.name + std::to_string(x.level) + std::to_string(x.flush) + x.pattern + (x.dead ? "!" : "") + ";"; mc::outcome(h);
}
MC_SCENARIO(changing_sinks, 0, 0, 0, 0, 0) {   // the copy's list of sinks is its own, the sinks themselves are shared
    int how = mc::choose(3); auto a = std::make_shared<RecSink>(), b = std::make_shared<RecSink>(); auto g = std::make_shared<logger>("g", a);
    logger_shr_ptr c = how == 0 ? std::make_shared<logger>(*g) : how == 1 ? g->clone("c") : std::make_shared<logger>(std::move(*std::make_shared<logger>(*g)));
    int w = mc::choose(2); (w ? g : c)->sinks().push_back(b); g->info("1"); MC_CHECK(a->recs.size() == 1 && b->recs.size() == (w ? 1u : 0u), "sink list shared between copies"); c->info("2"); MC_CHECK(a->recs.size() == 2 && b->recs.size() == 1u, "sink list shared between copies");
    c.reset(); g->info("3"); MC_CHECK(a->recs.size() == 3, "a copy's end disturbed the original"); mc::outcome(std::to_string(how * 2 + w));
}
// whatever the names: the clone has the one it was given, the original keeps its own, and messages carry them
MC_SCENARIO(names, 0, 0, 0, 0, 0) {
    static const std::string N[] = {"", "a", "clone", "a b%n{}", "\xc3\xa9", std::string("x\0y", 3), std::string(15, 'n'), std::string(16, 'n'), std::string(300, 'n')};
    const std::string &a = N[mc::choose(9)], &b = N[mc::choose(9)]; int how = mc::choose(4); auto s = std::make_shared<RecSink>(); std::string was; was = a; logger_shr_ptr g = std::make_shared<logger>(a, s), c; mc::op("logger %s cloned as %s", mc::quote(a).c_str(), mc::quote(b).c_str());
    auto say = [&](const logger_shr_ptr& l, const std::string& n) { l->info("t"); MC_CHECK(l->name() == n, "named %s, expected %s", mc::quote(l->name()).c_str(), mc::quote(n).c_str()); MC_CHECK(s->recs.back().name == n, "the message says %s, expected %s", mc::quote(s->recs.back().name).c_str(), mc::quote(n).c_str()); };
    c = how == 0 ? g->clone(b) : how == 1 ? std::make_shared<logger>(*g)->clone(b) : g->clone("other")->clone(b);
    if (how == 3) { g->swap(*c); say(g, b); say(c, was); g->swap(*c); } say(g, was); say(c, b); auto e = c->clone(was); say(e, was); say(c, b); g.reset(); say(c, b); mc::outcome(a + "/" + b);
}
