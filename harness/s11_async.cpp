// S11, asynchronous loggers: a clone logs through the same pool and sinks, under its own name and levels.
#include "async_common.h"
template <class Pool> static void clones() {
    auto s = std::make_shared<CapSink>(); int order = lmc::choose(2);
    {
        auto tp = std::make_shared<Pool>(64, 1); auto g = std::make_shared<ll::async_logger>("orig", s, tp); g->set_log_level(ll::level::debug); g->set_flush_level(ll::level::error);
        auto c = g->clone("copy"); LMC_CHECK(c->is_async() && c->name() == "copy" && g->name() == "orig", "clone's identity"); LMC_CHECK(c->get_log_level() == ll::level::debug && c->get_flush_level() == ll::level::error, "clone's levels");
        c->set_log_level(ll::level::warn); LMC_CHECK(g->get_log_level() == ll::level::debug, "level shared between a logger and its clone");
        if (order) { c->info("no"); g->info("g1"); c->warn("c1"); } else { g->info("g1"); c->info("no"); c->warn("c1"); }
        g.reset(); c->error("c2"); c->flush();
        LMC_CHECK(s->recs.size() == 3, "after a flush: %s", show(s->recs).c_str());
    }
    LMC_CHECK(show(s->recs) == "g1 c1 c2 ", "%s", show(s->recs).c_str()); LMC_CHECK(s->recs[0].name == "orig" && s->recs[1].name == "copy" && s->recs[2].name == "copy", "names"); LMC_CHECK(s->flush_at.size() == 2, "%zu flushes", s->flush_at.size());
    lmc::outcome(std::to_string(order));
}
LMC_SCENARIO(lock, 1, 2, 0) { clones<LockPool>(); }
LMC_SCENARIO(free, 0, 1, 0) { clones<FreePool>(); }
LMC_SCENARIO(conc, 0, 1, 0) { clones<ConcPool>(); }
// swapped with another logger, asynchronous or not: names, levels and sinks change places; how each of them delivers stays
template <class Pool> static void swapped() {
    auto s1 = std::make_shared<CapSink>(), s2 = std::make_shared<CapSink>(); int other = lmc::choose(3), form = lmc::choose(2), msgs = lmc::choose(2);
    {
        auto tp = std::make_shared<Pool>(64, 1), tp2 = other == 2 ? std::make_shared<Pool>(64, 1) : tp; auto a = std::make_shared<ll::async_logger>("A", s1, tp); std::shared_ptr<ll::logger> b; if (other) b = std::make_shared<ll::async_logger>("B", s2, tp2); else b = std::make_shared<ll::logger>("B", s2); a->set_log_level(ll::level::debug); b->set_flush_level(ll::level::error);
        if (msgs) { a->info("x"); b->warn("y"); a->flush(); b->flush(); } size_t f1 = s1->flush_at.size(), f2 = s2->flush_at.size();
        if (form) a->swap(*b); else ll::swap(*b, *a);
        LMC_CHECK(a->is_async() && b->is_async() == (other > 0), "after a swap: is_async() %d and %d", a->is_async(), b->is_async()); LMC_CHECK(a->name() == "B" && b->name() == "A", "names %s, %s", a->name().c_str(), b->name().c_str());
        LMC_CHECK(a->get_log_level() == ll::level::info && b->get_log_level() == ll::level::debug && a->get_flush_level() == ll::level::error && b->get_flush_level() == ll::level::off, "levels after a swap");
        a->debug("no"); a->info("a1"); b->debug("b1"); if (!other) LMC_CHECK(s1->recs.back().text == "b1", "a synchronous logger is late"); a->flush(); b->flush(); a->error("a2"); tp.reset(); tp2.reset(); a.reset(); b.reset();
        LMC_CHECK(show(s1->recs) == (msgs ? "x b1 " : "b1 ") && show(s2->recs) == (msgs ? "y a1 a2 " : "a1 a2 "), "%s| %s", show(s1->recs).c_str(), show(s2->recs).c_str()); LMC_CHECK(s1->recs.back().name == "A" && s2->recs.back().name == "B", "names in the messages"); LMC_CHECK(s1->flush_at.size() == f1 + 1 && s2->flush_at.size() == f2 + 2, "%zu and %zu flushes", s1->flush_at.size() - f1, s2->flush_at.size() - f2);
    }
    lmc::outcome(std::to_string(other * 2 + msgs));
}
LMC_SCENARIO(lock_swapped, 0, 1, 0) { swapped<LockPool>(); }
LMC_SCENARIO(free_swapped, 0, 0, 0) { swapped<FreePool>(); }
LMC_SCENARIO(conc_swapped, 0, 0, 0) { swapped<ConcPool>(); }
// a list of sinks with one of them twice is carried over as it is
template <class Pool> static void twice() {
    auto s = std::make_shared<CapSink>(), t = std::make_shared<CapSink>(); int how = lmc::choose(3); { auto tp = std::make_shared<Pool>(64, 1); std::vector<ll::sink_shr_ptr> v{s, t, s}; auto g = std::make_shared<ll::async_logger>("g", v.begin(), v.end(), tp); auto c = how == 0 ? g->clone("c") : how == 1 ? std::static_pointer_cast<ll::logger>(std::make_shared<ll::async_logger>(*g)) : g->clone("d")->clone("c"); if (lmc::choose(2)) g.reset(); c->info("m"); c->flush(); }
    LMC_CHECK(show(s->recs) == "m m " && show(t->recs) == "m ", "%s| %s", show(s->recs).c_str(), show(t->recs).c_str()); lmc::outcome(std::to_string(how));
}
LMC_SCENARIO(lock_twice, 0, 1, 0) { twice<LockPool>(); }
LMC_SCENARIO(conc_twice, 0, 0, 0) { twice<ConcPool>(); }
