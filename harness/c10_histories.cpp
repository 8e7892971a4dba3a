// C10, histories: which pool is current, which loggers stay registered and alive, after every sequence of operations.
#include "seqlib.h"
#include <cstring>
#include <dlfcn.h>
#include <atomic>
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
typedef ll::base::lock_thread_pool LockPool; typedef ll::base::lockfree_thread_pool FreePool; typedef ll::base::lockfree_concurrent_thread_pool ConcPool;
struct Cap : RecSink { size_t count(const char*) { return recs.size(); } }; typedef std::shared_ptr<Cap> S;
// every sequence of pool and logger operations: which pool is current, which loggers stay registered and alive
struct Lg { ll::logger_shr_ptr p; S s; std::string name; int gen; bool registered; int sent, got; };
MC_SCENARIO(histories, 4, 5, 0, 0, 0) {
    Err err; int depth = mc::depth(); int gen = 0, type = -1; size_t q = 0, w = 0; std::vector<Lg> v; int n = 0, bad = 0; v.reserve(20); bool dfl = false; ll::close(); ll::set_default_logger(nullptr);
    auto dead = [&] { for (auto& l : v) if (l.gen >= 0 && l.registered) l.registered = false; dfl = false; };
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(11); 
        if (k < 3) { bool same = type == k; if (!same) { dead(); gen++; if (type < 0) { q = 8192; w = 1; } type = k; } Lg l; l.name = "L" + std::to_string(n++); l.gen = gen; l.registered = true; l.sent = l.got = 0; ll::async_logger_shr_ptr p = k == 0 ? ll::create_async_lock<Cap>(l.name) : k == 1 ? ll::create_async_lockfree<Cap>(l.name) : ll::create_async_lockfree_concurrent<Cap>(l.name); l.p = p; l.s = std::static_pointer_cast<Cap>(p->sinks()[0]); v.push_back(l); }
        else if (k < 6) { dead(); gen++; type = k - 3; q = 32 * (1 + i); w = 1; if (k == 3) ll::initialize_thread_pool<LockPool>(q, w); else if (k == 4) ll::initialize_thread_pool<FreePool>(q, w); else ll::initialize_thread_pool<ConcPool>(q, w); }
        else if (k == 6) { dead(); gen++; type = -1; ll::register_thread_pool(nullptr); }
        else if (k == 7) { Lg l; l.name = "L" + std::to_string(n++); l.gen = -1; l.registered = true; l.sent = l.got = 0; l.p = ll::create<Cap>(l.name); l.s = std::static_pointer_cast<Cap>(l.p->sinks()[0]); v.push_back(l); }
        else if (k == 8) { if (v.empty()) return; ll::set_default_logger(v.back().p); v.back().registered = true; dfl = v.back().gen >= 0; if (v.back().gen < 0) dfl = false; }
        else if (k == 9) { for (auto& l : v) l.registered = false; dfl = false; gen++; type = -1; ll::close(); }
        else { if (v.empty()) return; v.front().registered = false; ll::remove_logger(v.front().name); if (v.size() == 1) dfl = false; }
        for (auto& l : v) { bool ok = l.gen < 0 || l.gen == gen; l.p->log(ll::level::info, ll::fmt_string_view("x")); l.p->flush(); if (ok) l.got++; else bad += 2;  MC_CHECK((int)l.s->count("x") == l.got, "logger %s: %zu messages, expected %d", l.name.c_str(), l.s->count("x"), l.got); MC_CHECK((ll::get_logger(l.name) == l.p) == l.registered, "logger %s is %sregistered", l.name.c_str(), l.registered ? "not " : "still "); }
        auto tp = ll::get_thread_pool(); MC_CHECK(!!tp == (type >= 0), "%s pool registered", tp ? "a" : "no"); if (tp) MC_CHECK(tp->message_queue_type() == type && tp->message_queue_size() == q && tp->threads_size() == w, "pool type %d size %zu threads %zu, expected %d, %zu, %zu", (int)tp->message_queue_type(), tp->message_queue_size(), tp->threads_size(), type, q, w);
        MC_CHECK(err.reports() == bad, "%d reports, expected %d", err.reports(), bad);
    }
    (void)dfl; std::string o; for (auto& l : v) o += std::to_string(l.got); mc::outcome(o);
}
// whichever asynchronous logger is the default when its pool goes, it goes too; a synchronous one stays
MC_SCENARIO(defaults, 0, 0, 0, 0, 0) {
    int na = 1 + mc::choose(5), ns = mc::choose(2), d = mc::choose(na + ns + 1), how = mc::choose(4); Err err; ll::close(); ll::set_default_logger(nullptr); ll::initialize_thread_pool<LockPool>(64, 1); std::vector<ll::logger_shr_ptr> v;
    for (int i = 0; i < na; i++) v.push_back(ll::create_async_lock<Cap>(std::string(1, (char)('a' + (i * 7) % 5)) + std::to_string(i))); for (int i = 0; i < ns; i++) v.push_back(ll::create<Cap>("s")); ll::logger_shr_ptr dl = d == na + ns ? nullptr : v[d]; ll::set_default_logger(dl);
    if (how == 0) ll::initialize_thread_pool<LockPool>(64, 1); else if (how == 1) ll::initialize_thread_pool<FreePool>(64, 1); else if (how == 2) ll::register_thread_pool(nullptr); else ll::create_async_lockfree_concurrent<Cap>("other");
    ll::logger_shr_ptr now = ll::get_default_logger(); MC_CHECK(now == (d >= na ? dl : nullptr), "logger %d of %d asynchronous ones was the default, and %s", d, na, now ? "one still is" : "none is now");
    for (int i = 0; i < na + ns; i++) MC_CHECK((ll::get_logger(v[i]->name()) == v[i]) == (i >= na), "logger %d of %d is %s", i, na, i >= na ? "gone" : "still registered");
    MC_CHECK(err.reports() == 0, "%s", err.text().c_str()); now.reset(); dl.reset(); v.clear(); ll::close(); mc::outcome(std::to_string(d >= na) + std::to_string(how));
}
// sizes are kept when a factory of another type replaces the pool; every worker runs the hooks it was given
MC_SCENARIO(sizes, 0, 0, 0, 0, 0) {
    int a = mc::choose(3), b = mc::choose(3); static const size_t Q[] = {32, 64, 100, 1000}; size_t q = Q[mc::choose(4)], w = 1 + mc::choose(3); if (a == 0) ll::initialize_thread_pool<LockPool>(q, w); else if (a == 1) ll::initialize_thread_pool<FreePool>(q, w); else ll::initialize_thread_pool<ConcPool>(q, w); auto old = ll::get_thread_pool(); MC_CHECK(old->message_queue_type() == a && old->message_queue_size() == q && old->threads_size() == w, "pool as asked for");
    ll::logger_shr_ptr g; if (b == 0) g = ll::create_async_lock<Cap>("A"); else if (b == 1) g = ll::create_async_lockfree<Cap>("A"); else g = ll::create_async_lockfree_concurrent<Cap>("A"); auto tp = ll::get_thread_pool(); MC_CHECK((tp == old) == (a == b), "the pool was %s", tp == old ? "kept" : "replaced"); MC_CHECK(tp->message_queue_type() == b && tp->message_queue_size() == q && tp->threads_size() == w, "type %d size %zu threads %zu, expected %d, %zu, %zu", (int)tp->message_queue_type(), tp->message_queue_size(), tp->threads_size(), b, q, w);
    tp.reset(); old.reset(); g.reset(); ll::close(); mc::outcome(std::to_string(a) + std::to_string(b));
}
template <class P> static void hooks(size_t w) {
    std::mutex m; std::set<size_t> started, stopped; bool stop = mc::choose(2); auto s = std::make_shared<Cap>(); {
        auto on = [&] { std::lock_guard<std::mutex> g(m); started.insert(ll::base::os::thread_id()); }; auto off = [&] { std::lock_guard<std::mutex> g(m); stopped.insert(ll::base::os::thread_id()); };
        std::shared_ptr<P> p = stop ? std::make_shared<P>(64, w, on, off) : std::make_shared<P>(64, w, on); auto g = std::make_shared<ll::async_logger>("A", s, p); g->info("x"); g->info("y"); { std::lock_guard<std::mutex> l(m); MC_CHECK(stopped.empty(), "a worker stopped early"); } }
    MC_CHECK(started.size() == w && (stop ? stopped == started : stopped.empty()), "%zu workers: start function run by %zu, stop function by %zu threads", w, started.size(), stopped.size()); if (w == 1) MC_CHECK(s->recs.size() == 2, "%zu messages", s->recs.size()); mc::outcome(std::to_string(w) + std::to_string(stop));
}
MC_SCENARIO(worker_hooks, 0, 0, 0, 0, 0) { int t = mc::choose(3); size_t w = 1 + mc::choose(3); if (t == 0) hooks<LockPool>(w); else if (t == 1) hooks<FreePool>(w); else hooks<ConcPool>(w); }
struct CountSink : RecSink { std::atomic<int> n{0}; void log(const ll::base::log_msg&) override { n++; } };
MC_SCENARIO(good_sizes, 0, 0, 0, 0, 0) { int t = mc::choose(3); size_t w = mc::choose(2) ? 1 : 1024; auto s = std::make_shared<CountSink>();
    if (t == 0) ll::initialize_thread_pool<LockPool>(32, w); else if (t == 1) ll::initialize_thread_pool<FreePool>(32, w); else ll::initialize_thread_pool<ConcPool>(32, w);
    { auto lg = std::make_shared<ll::async_logger>("L", s, ll::get_thread_pool()); for (int i = 0; i < 3; i++) lg->log(ll::level::info, ll::fmt_string_view("m")); } ll::close();
    MC_CHECK(s->n == 3, "%d of 3 messages through %zu workers", s->n.load(), w); mc::outcome(std::to_string(t) + std::to_string(w)); }
// a pool that should have been refused is stopped before it fills the machine
static std::atomic<long> threads_left{-1};
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { static auto real = (decltype(&pthread_create))dlsym(RTLD_NEXT, "pthread_create"); if (threads_left >= 0 && --threads_left < 0) mc::fail("a pool starts its threads instead of refusing their number"); return real(t, a, f, x); }
MC_SCENARIO(bad_sizes, 0, 0, 0, 0, 0) { int t = mc::choose(3), k = mc::choose(12); static const size_t W[] = {0, 1025, (size_t)-1, 1026, 2047, 2048, 32768 + 1, 65536 + 1, 65536 * 2 + 1024, (1ul << 31) + 1, (1ul << 32) + 1, (1ul << 63) + 2}; size_t w = W[k]; Err e; threads_left = 8; auto old = std::make_shared<LockPool>(32, 1); ll::register_thread_pool(old); bool threw = false; try { if (t == 0) ll::initialize_thread_pool<LockPool>(32, w); else if (t == 1) ll::initialize_thread_pool<FreePool>(32, w); else ll::initialize_thread_pool<ConcPool>(32, w); } catch (const std::exception& x) { threw = true; MC_CHECK(strstr(x.what(), "1-1024") || strlen(x.what()), "message"); } MC_CHECK(threw, "a pool of %zu threads", w); MC_CHECK(ll::get_thread_pool() == old, "the old pool is gone"); threads_left = -1; old.reset(); ll::close(); mc::outcome(std::to_string(t)); }
