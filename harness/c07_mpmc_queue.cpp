// C07: the lock-free queue and its semaphore: nothing lost, nothing duplicated, order of each producer kept,
// under every schedule (by the declared memory orders: no data race).
#include "lmc.h"
#include "base/concurrentqueue/blockingconcurrentqueue.h"
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <set>
using namespace moodycamel;

struct Val { std::unique_ptr<int> p; Val() {} explicit Val(int v) : p(new int(v)) {} Val(Val&&) = default; Val& operator=(Val&&) = default; int get() const { return p ? *p : -1; } };
typedef std::vector<int> VI;
static std::string str(const VI& v) { std::string s; for (int x : v) s += std::to_string(x) + ","; return s; }
// values are 100 * producer + number
static void verify(const std::vector<VI>& got, const VI& want, bool per_consumer_order) {
    std::multiset<int> a, b(want.begin(), want.end()); std::string s;
    for (auto& g : got) { s += str(g) + " | "; for (int v : g) a.insert(v); }
    LMC_CHECK(a == b, "items removed: %s; items added: %s", s.c_str(), str(want).c_str());
    if (per_consumer_order) for (auto& g : got) for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++)
        LMC_CHECK(g[i] / 100 != g[j] / 100 || g[i] < g[j], "items of one producer out of order: %s", s.c_str());
    lmc::outcome(s);
}
// the way lockfree_concurrent_thread_pool uses it: explicit producers, one consumer each
static void from_producer(int pre, int n, int prods) {
    ConcurrentQueue<Val> q(32); std::vector<std::unique_ptr<ProducerToken>> tk; std::vector<VI> got(prods); VI want;
    for (int p = 0; p < prods; p++) tk.emplace_back(new ProducerToken(q));
    for (int p = 0; p < prods; p++) for (int i = 0; i < pre; i++) { LMC_CHECK(q.enqueue(*tk[p], Val(100 * p + i)), "enqueue"); Val v; LMC_CHECK(q.try_dequeue_from_producer(*tk[p], v) && v.get() == 100 * p + i, "sequential dequeue"); }
    for (int p = 0; p < prods; p++) for (int i = 0; i < n; i++) want.push_back(100 * p + i);
    std::vector<std::thread> th;
    for (int p = 0; p < prods; p++) th.emplace_back([&, p] { Val v; while ((int)got[p].size() < n) if (q.try_dequeue_from_producer(*tk[p], v)) got[p].push_back(v.get()); });
    for (int i = 0; i < n; i++) for (int p = 0; p < prods; p++) { Val v(100 * p + i); while (!q.try_enqueue(*tk[p], std::move(v))) if (q.enqueue(*tk[p], std::move(v))) break; }
    for (auto& t : th) t.join();
    Val v; for (int p = 0; p < prods; p++) LMC_CHECK(!q.try_dequeue_from_producer(*tk[p], v), "item %d appears from nowhere", v.get());
    LMC_CHECK(q.size_approx() == 0, "size_approx() is %zu on an empty queue", q.size_approx());
    verify(got, want, true);
}
// two threads share one producer token's queue as consumers
static void two_consumers(int pre, int n) {
    ConcurrentQueue<Val> q(64); ProducerToken tk(q); std::vector<VI> got(2); VI want;
    for (int i = 0; i < pre; i++) { q.enqueue(tk, Val(i)); want.push_back(i); }
    auto cons = [&](int c) { Val v; for (int i = 0; i < pre; i++) if (q.try_dequeue(v)) got[c].push_back(v.get()); };
    std::thread a(cons, 0), b(cons, 1);
    for (int i = 0; i < n; i++) { q.enqueue(tk, Val(pre + i)); want.push_back(pre + i); }
    a.join(); b.join();
    VI rest; Val v; while (q.try_dequeue(v)) rest.push_back(v.get());
    got.push_back(rest); verify(got, want, true);
}
// the way lockfree_thread_pool uses it: implicit producers, bounded try_enqueue, blocking consumers with tokens
static void blocking(int prods, int n, int cons, size_t cap, int pre) {
    BlockingConcurrentQueue<Val> q(cap); std::vector<VI> got(cons); VI want;
    { ConsumerToken ct(q); for (int i = 0; i < pre; i++) { LMC_CHECK(q.try_enqueue(Val(i)), "try_enqueue refused item %d", i); Val v; q.wait_dequeue(ct, v); LMC_CHECK(v.get() == i, "sequential dequeue"); } }
    for (int p = 0; p < prods; p++) for (int i = 0; i < n; i++) want.push_back(100 * p + i);
    std::vector<std::thread> th;
    for (int c = 0; c < cons; c++) th.emplace_back([&, c] { ConsumerToken ct(q); int share = prods * n / cons; for (int i = 0; i < share; i++) { Val v; q.wait_dequeue(ct, v); got[c].push_back(v.get()); } });
    auto prod = [&](int p) { for (int i = 0; i < n; i++) { Val v(100 * p + i); while (!q.try_enqueue(std::move(v))) continue; } };
    for (int p = 1; p < prods; p++) th.emplace_back(prod, p);
    prod(0);
    for (auto& t : th) t.join();
    LMC_CHECK(q.size_approx() == 0, "size_approx() is %zu on an empty queue", q.size_approx());
    Val v; LMC_CHECK(!q.try_dequeue(v), "item %d appears from nowhere", v.get());
    verify(got, want, true);
}
// a full queue refuses without losing the item, and takes items again after a removal
static void full() {
    BlockingConcurrentQueue<Val> q(32); int acc = 0; VI got;
    Val v(0); while (q.try_enqueue(std::move(v))) { acc++; v = Val(acc); LMC_CHECK(acc < 200, "try_enqueue never refuses"); }
    LMC_CHECK(v.get() == acc, "a refused item was taken");
    LMC_CHECK(acc >= 32, "queue for 32 items refused item %d", acc);
    std::thread t([&] { Val x; for (int i = 0; i < 33; i++) { q.wait_dequeue(x); got.push_back(x.get()); } });
    while (!q.try_enqueue(std::move(v))) continue;
    t.join();
    Val x; while (q.try_dequeue(x)) got.push_back(x.get());
    VI want; for (int i = 0; i <= acc; i++) want.push_back(i);
    verify({got}, want, true);
}
// a producer goes away and another one comes; its items stay
static void producer_reuse(bool tokens) {
    BlockingConcurrentQueue<Val> q(128); VI got;
    std::thread c([&] { Val v; for (int i = 0; i < 4; i++) { q.wait_dequeue(v); got.push_back(v.get()); } });
    auto prod = [&](int p) { if (tokens) { ProducerToken tk(q); q.enqueue(tk, Val(100 * p)); q.enqueue(tk, Val(100 * p + 1)); } else { q.enqueue(Val(100 * p)); q.enqueue(Val(100 * p + 1)); } };
    std::thread a(prod, 0); a.join();
    std::thread b(prod, 1); b.join();
    c.join();
    verify({got}, {0, 1, 100, 101}, true);
}
static void bulk() {
    BlockingConcurrentQueue<Val> q(128); VI got;
    std::thread c([&] { while (got.size() < 5) { Val v[3]; size_t n = q.wait_dequeue_bulk(v, 3); for (size_t i = 0; i < n; i++) got.push_back(v[i].get()); } });
    Val a[3] = {Val(0), Val(1), Val(2)}; q.enqueue_bulk(std::make_move_iterator(a), 3);
    Val b[2] = {Val(3), Val(4)}; ProducerToken tk(q); q.enqueue_bulk(tk, std::make_move_iterator(b), 2);
    c.join();
    std::multiset<int> s(got.begin(), got.end()), w{0, 1, 2, 3, 4}; LMC_CHECK(s == w, "items removed: %s", str(got).c_str());
    lmc::outcome(str(got));
}
// the semaphore: as many waits return as were signalled
static void sema(int waiters, int sig1, int sig2, bool many) {
    LightweightSemaphore s(0, lmc::choose(2)); bool later = lmc::choose(2); int passed[3] = {}; std::vector<std::thread> th;
    for (int i = 0; i < waiters; i++) th.emplace_back([&, i] { if (many) { ssize_t k = s.waitMany(2); LMC_CHECK(k >= 1 && k <= 2, "waitMany(2) returned %ld", (long)k); passed[i] = (int)k; } else { LMC_CHECK(s.wait(), "wait() failed"); passed[i] = 1; } });
    if (later) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    s.signal(sig1); if (sig2) s.signal(sig2);
    for (auto& t : th) t.join();
    int n = 0; for (int p : passed) n += p;
    int left = 0; while (s.tryWait()) left++;
    LMC_CHECK(n + left == sig1 + sig2, "%d signals, %d waits returned, %d left", sig1 + sig2, n, left);
    lmc::outcome(std::to_string(n) + "/" + std::to_string(left));
}
static void sema_timed(int n, bool many) {      // waits that time out while signals arrive
    LightweightSemaphore s(0, 1); int got[2] = {}; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { got[i] = many ? (int)s.waitMany(2, 5000) : s.wait(5000); });
    std::this_thread::sleep_for(std::chrono::milliseconds(1));      // by now the others sleep in the semaphore
    for (int i = 0; i < n; i++) s.signal();
    for (auto& t : th) t.join();
    int left = 0; while (s.tryWait()) left++;
    LMC_CHECK(got[0] + got[1] + left == n, "%d signals, timed waits %d %d, %d left", n, got[0], got[1], left);
    LMC_CHECK(s.availableApprox() == 0, "%zu available", s.availableApprox()); bool again = many ? s.waitMany(1, 3000) : s.wait(3000); LMC_CHECK(!again, "a wait returned without a signal");
    s.signal(2); LMC_CHECK(s.wait(1000) && s.wait(1000) && !s.wait(1000), "waits after two more signals");
    lmc::outcome(std::to_string(got[0]) + std::to_string(got[1]));
}
// timed removal that expires while an item arrives; the queue works on as if nothing had happened
struct ShortSpin : ConcurrentQueueDefaultTraits { static const int MAX_SEMA_SPINS = 1; };
static void timed_queue(int n, bool token, bool bulk) {
    BlockingConcurrentQueue<Val, ShortSpin> q(64); std::vector<VI> got(2); VI want; ConsumerToken ct(q); std::unique_ptr<ConsumerToken> tk(token ? new ConsumerToken(q) : nullptr);
    auto take = [&](VI& to, int us) { Val v[2]; size_t k = bulk ? (token ? q.wait_dequeue_bulk_timed(*tk, v, 2, us) : q.wait_dequeue_bulk_timed(v, 2, us)) : (token ? q.wait_dequeue_timed(*tk, v[0], us) : q.wait_dequeue_timed(v[0], us)); for (size_t i = 0; i < k; i++) to.push_back(v[i].get()); return k; };
    for (int i = 0; i < n; i++) want.push_back(i);
    std::thread t([&] { take(got[0], 5000); });
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    for (int i = 0; i < n; i++) q.enqueue(Val(i));
    t.join();
    while ((int)(got[0].size() + got[1].size()) < n) LMC_CHECK(take(got[1], 1000), "%zu of %d items, and no more", got[0].size() + got[1].size(), n);
    LMC_CHECK(!take(got[1], 1000), "item from nowhere"); LMC_CHECK(q.size_approx() == 0, "size"); q.enqueue(Val(n)); want.push_back(n); LMC_CHECK(take(got[1], 1000) == 1, "an item after a timeout");
    verify(got, want, true);
}
// consumers race for the last items while more arrive; kind 0: a token's queue, 1: any queue, 2: implicit producer, 3: implicit producer and consumer tokens
static void race(int cons, int pre, int n, int tries, int kind) {
    ConcurrentQueue<Val> q(128); std::unique_ptr<ProducerToken> tk(kind < 2 ? new ProducerToken(q) : nullptr); std::vector<VI> got(cons); VI want;
    auto put = [&](int v) { if (tk) q.enqueue(*tk, Val(v)); else q.enqueue(Val(v)); want.push_back(v); };
    for (int i = 0; i < pre; i++) put(i);
    std::vector<std::thread> th;
    for (int c = 0; c < cons; c++) th.emplace_back([&, c] {
        std::unique_ptr<ConsumerToken> ct(kind == 3 ? new ConsumerToken(q) : nullptr); Val v;
        for (int i = 0; i < tries; i++) if (kind == 0 ? q.try_dequeue_from_producer(*tk, v) : ct ? q.try_dequeue(*ct, v) : q.try_dequeue(v)) got[c].push_back(v.get()); });
    if (n) th.emplace_back([&] { for (int i = 0; i < n; i++) put((tk ? 0 : 100) + pre + i); });      // a thread of its own: every order is free of preemptions
    for (auto& t : th) t.join();
    put(pre + n);       // whatever happened before: what is put in now can be taken out
    VI rest; Val v; while (tk ? q.try_dequeue_from_producer(*tk, v) : q.try_dequeue(v)) { rest.push_back(v.get()); LMC_CHECK((int)rest.size() < pre + 10, "removals never end: %s", str(rest).c_str()); }
    LMC_CHECK(q.size_approx() == 0, "size_approx() is %zu on an empty queue", q.size_approx());
    got.push_back(rest); verify(got, want, true);
}
// the same with the bulk operations
static void race_bulk(int cons, int pre, int n, bool token) {
    ConcurrentQueue<Val> q(128); std::unique_ptr<ProducerToken> tk(token ? new ProducerToken(q) : nullptr); std::vector<VI> got(cons); VI want;
    auto put = [&](int from, int k) { std::vector<Val> a; for (int i = 0; i < k; i++) { a.emplace_back(from + i); want.push_back(from + i); } if (tk) q.enqueue_bulk(*tk, std::make_move_iterator(a.begin()), k); else q.enqueue_bulk(std::make_move_iterator(a.begin()), k); };
    if (pre) put(0, pre);
    std::vector<std::thread> th;
    for (int c = 0; c < cons; c++) th.emplace_back([&, c] { Val v[2]; for (int i = 0; i < 2; i++) { size_t k = token && i == 0 ? q.try_dequeue_bulk_from_producer(*tk, v, 2) : q.try_dequeue_bulk(v, 2); for (size_t j = 0; j < k; j++) got[c].push_back(v[j].get()); } });
    th.emplace_back([&] { put((tk ? 0 : 100) + pre, n); });
    for (auto& t : th) t.join();
    put(pre + n, 1);
    VI rest; Val v[3]; for (size_t k; (k = q.try_dequeue_bulk(v, 3)); ) { for (size_t j = 0; j < k; j++) rest.push_back(v[j].get()); LMC_CHECK(rest.size() < 10, "removals never end"); }
    LMC_CHECK(q.size_approx() == 0, "size_approx() is %zu on an empty queue", q.size_approx());
    got.push_back(rest); verify(got, want, true);
}
// every way of putting k items in makes exactly k waiting removals possible, of every kind
static void accounting() {
    BlockingConcurrentQueue<Val> q(128); ProducerToken tk(q); ConsumerToken ct(q); int in = lmc::choose(8), out = lmc::choose(8), k = in < 4 ? 1 : 1 + lmc::choose(3), rounds = 2; VI want, got;
    for (int r = 0; r < rounds; r++) {
        Val a[3]; for (int i = 0; i < k; i++) { a[i] = Val(r * 10 + i); want.push_back(r * 10 + i); } auto m = std::make_move_iterator(a); bool ok = false;
        switch (in) {
            case 0: ok = q.enqueue(std::move(a[0])); break;             case 1: ok = q.enqueue(tk, std::move(a[0])); break;
            case 2: ok = q.try_enqueue(std::move(a[0])); break;         case 3: ok = q.try_enqueue(tk, std::move(a[0])); break;
            case 4: ok = q.enqueue_bulk(m, k); break;                   case 5: ok = q.enqueue_bulk(tk, m, k); break;
            case 6: ok = q.try_enqueue_bulk(m, k); break;               case 7: ok = q.try_enqueue_bulk(tk, m, k); break;
        }
        LMC_CHECK(ok, "insertion of kind %d of %d items refused", in, k); LMC_CHECK((int)q.size_approx() == k * (r + 1), "size_approx() is %zu after %d items", q.size_approx(), k * (r + 1));
    }
    std::thread t([&] {
        while (got.size() < want.size()) {
            Val v[2]; size_t n = 0;
            switch (out) {
                case 0: q.wait_dequeue(v[0]); n = 1; break;                 case 1: q.wait_dequeue(ct, v[0]); n = 1; break;
                case 2: n = q.wait_dequeue_timed(v[0], 1000); break;        case 3: n = q.wait_dequeue_timed(ct, v[0], 1000); break;
                case 4: n = q.wait_dequeue_bulk(v, 2); break;               case 5: n = q.wait_dequeue_bulk(ct, v, 2); break;
                case 6: n = q.try_dequeue(v[0]); break;                     case 7: n = q.try_dequeue_bulk(ct, v, 2); break;
            }
            LMC_CHECK(n > 0, "items put in by way %d: removal of kind %d finds %zu of %zu items, and no more", in, out, got.size(), want.size());
            for (size_t i = 0; i < n; i++) got.push_back(v[i].get());
        }
        Val v; LMC_CHECK(!q.try_dequeue(v), "item from nowhere");
    });
    t.join(); std::multiset<int> a(got.begin(), got.end()), b(want.begin(), want.end()); LMC_CHECK(a == b, "items removed: %s", str(got).c_str());
    lmc::outcome(std::to_string(in) + std::to_string(out) + std::to_string(k));
}
static void sema_excl() {       // used as a lock it gives mutual exclusion and passes data on
    LightweightSemaphore s(1); long data = 0;
    auto f = [&] { s.wait(); data++; s.signal(); };
    std::thread t(f); f(); t.join();
    s.wait(); LMC_CHECK(data == 2, "%ld", data);
    lmc::outcome("ok");
}
// items that arrive after an hour: waiting has no limit, and a timed removal waits its whole time
static void late(int kind) {
    BlockingConcurrentQueue<Val> q(64); std::vector<VI> got(2); std::vector<std::thread> th; uint64_t left[2] = {}; bool miss[2] = {};
    auto nap = [](long long ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); };
    for (int c = 0; c < 2; c++) th.emplace_back([&, c] {
        Val v[2]; size_t k = 1; long long us = c ? 3600020000ll : 3600005000ll; ConsumerToken ct(q);
        switch (kind) {
        case 0: q.wait_dequeue(v[0]); break;
        case 1: q.wait_dequeue(ct, v[0]); break;
        case 2: k = q.wait_dequeue_bulk(v, 2); LMC_CHECK(k >= 1 && k <= 2, "bulk removal of %zu", k); break;
        case 3: k = q.wait_dequeue_timed(v[0], us); break;
        case 4: k = q.wait_dequeue_timed(ct, v[0], us); break;
        default: k = q.wait_dequeue_bulk_timed(v, 2, us); }
        miss[c] = !k; left[c] = lmc::now_ms();
        for (size_t i = 0; i < k; i++) got[c].push_back(v[i].get()); });
    nap(3600000); q.enqueue(Val(0)); nap(10); q.enqueue(Val(1)); if (kind == 2) q.enqueue(Val(2));
    for (auto& t : th) t.join();
    for (int c = 0; c < 2; c++) { LMC_CHECK(left[c] >= 3600000, "a removal returned after %lu ms, before anything was there", (long)left[c]);
        if (miss[c]) LMC_CHECK(left[c] == (c ? 3600020u : 3600005u), "a timed removal gave up after %lu ms", (long)left[c]); }
    LMC_CHECK(!miss[0] || !miss[1], "both timed removals gave up");
    Val v; VI rest; while (q.try_dequeue(v)) rest.push_back(v.get());
    got.push_back(rest); verify(got, kind == 2 ? VI{0, 1, 2} : VI{0, 1}, true);
}
// more producing threads than the table of implicit producers has room for at first
static void many_producers(int first, int n) {
    ConcurrentQueue<Val> q(32); std::vector<std::thread> th; VI got, want;
    for (int i = 0; i < first + n; i++) { want.push_back(100 * i); want.push_back(100 * i + 1); th.emplace_back([&, i] { q.enqueue(Val(100 * i)); q.enqueue(Val(100 * i + 1)); }); if (i < first) { th.back().join(); th.pop_back(); } }
    for (auto& t : th) t.join();
    Val v; while (q.try_dequeue(v)) got.push_back(v.get());
    verify({got}, want, true);
}
// blocks of two items: the edges, the reuse and the list of free blocks come with every other item
struct Tiny : ConcurrentQueueDefaultTraits { static const size_t BLOCK_SIZE = 2; static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 8; static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 8; };
struct TinyIndex : Tiny { static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2; static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2; };
static int room(ConcurrentQueue<Val, Tiny>& q) { int n = 0; Val v(9000); while (q.try_enqueue(std::move(v))) { v = Val(9000 + ++n); LMC_CHECK(n < 100, "never full"); } return n; }
// threads that put items in and take items out; afterwards there is room for as many as there was before
static void tiny_free(int threads, int rounds, int blocks, bool tok) {
    ConcurrentQueue<Val, Tiny> q(2 * blocks); int was = 0; VI want; std::vector<VI> got(threads + 1); std::vector<std::thread> th;
    { ConcurrentQueue<Val, Tiny> f(2 * blocks); was = room(f); }
    { Val v; int n = room(q); for (int i = 0; i < n; i++) LMC_CHECK(q.try_dequeue(v), "sequential removal"); }        // all blocks on the list
    auto f = [&](int t) { std::unique_ptr<ConsumerToken> c(tok ? new ConsumerToken(q) : nullptr);
        for (int r = 0; r < rounds; r++) {
            for (int i = 0; i < 2; i++) { Val v(100 * t + 2 * r + i); while (!q.try_enqueue(std::move(v))) continue; }
            for (int i = 0; i < 2; i++) { Val v; while (!(c ? q.try_dequeue(*c, v) : q.try_dequeue(v))) continue; got[t].push_back(v.get()); } } };
    for (int t = 0; t < threads; t++) for (int i = 0; i < 2 * rounds; i++) want.push_back(100 * t + i);
    for (int t = 1; t < threads; t++) th.emplace_back(f, t);
    f(0); for (auto& t : th) t.join();
    LMC_CHECK(q.size_approx() == 0, "size_approx() is %zu on an empty queue", q.size_approx());
    int now = room(q); LMC_CHECK(now == was, "room for %d items, for %d at first", now, was);
    verify(got, want, true);
}
// one token, several consumers, blocks reused at once
template <class T> static void tiny_token(int items, int cons, int blocks, bool grow) {
    ConcurrentQueue<Val, T> q(2 * blocks); ProducerToken tk(q); std::vector<VI> got(cons); VI want; std::vector<std::thread> th;
    for (int i = 0; i < items; i++) want.push_back(i);
    for (int c = 0; c < cons; c++) th.emplace_back([&, c] { for (int i = 0; i < items / cons; i++) { Val v; while (!q.try_dequeue_from_producer(tk, v)) continue; got[c].push_back(v.get()); } });
    for (int i = 0; i < items; i++) { Val v(i); if (grow) LMC_CHECK(q.enqueue(tk, std::move(v)), "enqueue"); else while (!q.try_enqueue(tk, std::move(v))) continue; }
    for (auto& t : th) t.join();
    Val v; LMC_CHECK(!q.try_dequeue(v), "item %d from nowhere", v.get());
    verify(got, want, true);
}
template <class T> static void tiny_bulk(bool tok, int n, int rounds) {
    ConcurrentQueue<Val, T> q(2 * n + 4); std::unique_ptr<ProducerToken> tk(tok ? new ProducerToken(q) : nullptr); VI got, want;
    std::thread c([&] { Val v[8]; while ((int)got.size() < n * rounds) { size_t k = q.try_dequeue_bulk(v, 3); for (size_t i = 0; i < k; i++) got.push_back(v[i].get()); } });
    for (int r = 0; r < rounds; r++) { std::vector<Val> in; for (int i = 0; i < n; i++) { want.push_back(r * n + i); in.emplace_back(r * n + i); }
        auto it = std::make_move_iterator(in.begin()); LMC_CHECK(tk ? q.enqueue_bulk(*tk, it, n) : q.enqueue_bulk(it, n), "enqueue_bulk"); }
    c.join(); verify({got}, want, true);
}
#ifdef MANY_THREADS
LMC_SCENARIO(many_producers_40, 0, 1, lmc::F_DELAY) { many_producers(0, 40); }
LMC_SCENARIO(many_producers_13_3, 1, 2, lmc::F_DELAY) { many_producers(13, 3); }
LMC_SCENARIO(many_producers_15_3, 1, 2, lmc::F_DELAY) { many_producers(15, 3); }
LMC_SCENARIO(come_and_go_70, 0, 1, lmc::F_DELAY) { many_producers(70, 0); }
#else
LMC_SCENARIO(tiny_free, 3, 4, 0) { tiny_free(2, 1, 2, false); }
LMC_SCENARIO(tiny_free_two, 2, 3, 0) { tiny_free(2, 2, 3, lmc::choose(2)); }
LMC_SCENARIO(tiny_free_three, 1, 2, 0) { tiny_free(3, 1, 3, false); }
LMC_SCENARIO(tiny_token, 2, 4, 0) { tiny_token<Tiny>(6, 2, 2, false); }
LMC_SCENARIO(tiny_token_grow, 2, 3, 0) { tiny_token<TinyIndex>(8, 2, 1, true); }
LMC_SCENARIO(tiny_bulk, 2, 4, 0) { int n = 3 + lmc::choose(2); if (lmc::choose(2)) tiny_bulk<Tiny>(true, n, 2); else tiny_bulk<TinyIndex>(false, n, 2); }
LMC_SCENARIO(late_items, 1, 3, 0) { late(lmc::choose(6)); }
LMC_SCENARIO(late_items_early, 1, 2, lmc::F_TIMEOUTS) { late(lmc::choose(3)); }
LMC_SCENARIO(token_one, 4, 6, 0) { from_producer(0, 3, 1); }
LMC_SCENARIO(token_two, 2, 3, 0) { from_producer(0, 2, 2); }
LMC_SCENARIO(token_block_edge, 3, 5, 0) { from_producer(31, 3, 1); }
LMC_SCENARIO(token_block_reuse, 2, 3, 0) { from_producer(63, 3, 1); }
LMC_SCENARIO(two_consumers_3, 2, 4, 0) { two_consumers(2, 1); }
LMC_SCENARIO(two_consumers_edge, 1, 2, 0) { two_consumers(31, 2); }
LMC_SCENARIO(race_two_token, 2, 4, 0) { race(2, 1, 2, 2, 0); }
LMC_SCENARIO(race_three_token, 3, 4, 0) { race(3, 1, 0, 1, 0); }
LMC_SCENARIO(race_late_token, 2, 3, 0) { race(3, 1, 2, 1, 0); }
LMC_SCENARIO(race_late_implicit, 1, 2, 0) { race(3, 1, 2, 1, 2); }
LMC_SCENARIO(race_late_bulk, 1, 2, 0) { race_bulk(3, 1, 2, lmc::choose(2)); }
LMC_SCENARIO(race_two_any, 2, 4, 0) { race(2, 1, 2, 2, 1); }
LMC_SCENARIO(race_two_implicit, 2, 2, 0) { race(2, 1, 2, 2, 2); }
LMC_SCENARIO(race_three_implicit, 2, 4, 0) { race(3, 1, 0, 1, 2); }
LMC_SCENARIO(race_two_consumer_tokens, 1, 2, 0) { race(2, 1, 2, 2, 3); }
LMC_SCENARIO(race_edge, 1, 2, 0) { race(2, 31, 2, 2, 0); }
LMC_SCENARIO(race_bulk_token, 2, 4, 0) { race_bulk(2, 1, 2, true); }
LMC_SCENARIO(race_bulk_implicit, 1, 3, 0) { race_bulk(2, 1, 2, false); }
LMC_SCENARIO(accounts, 0, 1, 0) { accounting(); }
LMC_SCENARIO(blocking_1p1c, 2, 4, 0) { blocking(1, 3, 1, 64, 0); }
LMC_SCENARIO(blocking_edge, 2, 4, 0) { blocking(1, 3, 1, 64, 31); }
LMC_SCENARIO(blocking_wrap, 2, 4, 0) { blocking(1, 3, 1, 64, 63); }
LMC_SCENARIO(blocking_2p1c, 2, 3, 0) { blocking(2, 1, 1, 96, 0); }
LMC_SCENARIO(blocking_2p2c, 1, 2, 0) { blocking(2, 1, 2, 96, 0); }
LMC_SCENARIO(full_queue, 1, 2, 0) { full(); }
LMC_SCENARIO(producer_reuse_tok, 2, 2, 0) { producer_reuse(true); }
LMC_SCENARIO(producer_reuse_imp, 1, 2, 0) { producer_reuse(false); }
LMC_SCENARIO(bulk_ops, 2, 4, 0) { bulk(); }
LMC_SCENARIO(sema_1, 3, 6, 0) { sema(1, 1, 1, false); }
LMC_SCENARIO(sema_2, 2, 4, 0) { sema(2, 1, 2, false); }
LMC_SCENARIO(sema_3, 1, 3, 0) { sema(3, 3, 0, false); }
LMC_SCENARIO(sema_3_split, 1, 2, 0) { sema(3, 2, 1, false); }
LMC_SCENARIO(sema_many, 2, 4, 0) { sema(2, 2, 2, true); }
LMC_SCENARIO(sema_timeout, 2, 4, lmc::F_TIMEOUTS) { sema_timed(1, false); }
LMC_SCENARIO(sema_timeout_two, 2, 4, lmc::F_TIMEOUTS) { sema_timed(2, false); }
LMC_SCENARIO(sema_timeout_many, 2, 4, lmc::F_TIMEOUTS) { sema_timed(1 + lmc::choose(2), true); }
LMC_SCENARIO(timed_queue_any, 2, 3, lmc::F_TIMEOUTS) { timed_queue(1 + lmc::choose(2), lmc::choose(2), lmc::choose(2)); }
LMC_SCENARIO(sema_lock, 3, 6, 0) { sema_excl(); }
#endif