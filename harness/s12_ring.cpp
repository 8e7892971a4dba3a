// S12: circular_queue against a bounded deque that overwrites its oldest element: every operation sequence up to a depth.
#include "seq.h"
#include "base/circular_queue.h"
#include <deque>
#include <string>
typedef learnlog::base::circular_queue<std::string> Q;
struct M { size_t cap = 0; std::deque<std::string> d; size_t over = 0; bool valid = false;
    void push(const std::string& s) { if (!valid) return; d.push_back(s); if (d.size() > cap) { d.pop_front(); over++; } } };
static void same(const Q& q, const M& m, const char* who) {
    MC_CHECK(q.size() == m.d.size(), "%s: size() is %zu, %zu elements are stored", who, q.size(), m.d.size());
    MC_CHECK(q.empty() == m.d.empty(), "%s: empty() is %d with %zu elements", who, (int)q.empty(), m.d.size());
    if (m.valid) MC_CHECK(q.full() == (m.d.size() == m.cap), "%s: full() is %d with %zu of %zu elements", who, (int)q.full(), m.d.size(), m.cap);
    else MC_CHECK(!q.full(), "%s: a queue without storage is full()", who);
    MC_CHECK(q.override_count() == m.over, "%s: override_count() is %zu, %zu elements were overwritten", who, q.override_count(), m.over);
    for (size_t i = 0; i < m.d.size(); i++) MC_CHECK(q.at(i) == m.d[i], "%s: at(%zu) is %s, expected %s", who, i, q.at(i).c_str(), m.d[i].c_str());
    if (!m.d.empty()) MC_CHECK(q.front() == m.d[0], "%s: front() is %s, expected %s", who, q.front().c_str(), m.d[0].c_str());
}
static void run(size_t cap, bool two) {
    Q a(cap), b(cap + 1); M ma, mb; ma.cap = cap; ma.valid = true; mb.cap = cap + 1; mb.valid = true; int n = 0;
    if (two) for (int i = 0; i < 2; i++) { std::string s = "initial element of b " + std::to_string(i); std::string c = s; b.push_back(std::move(c)); mb.push(s); }
    for (int i = 0; i < mc::depth(); i++) {
        int o = mc::choose(two ? 10 : 3);
        std::string v = "element number " + std::to_string(n);
        switch (o) {
            case 0: { mc::op("a.push_back(%d)", n++); std::string c = v; a.push_back(std::move(c)); ma.push(v); break; }
            case 1: if (ma.d.empty()) return; mc::op("a.pop_front()"); a.pop_front(); ma.d.pop_front(); break;
            case 2: mc::op("a.reset_override_count()"); a.reset_override_count(); ma.over = 0; break;
            case 3: { mc::op("b.push_back(%d)", n++); std::string c = v; b.push_back(std::move(c)); mb.push(v); break; }
            case 4: mc::op("a = b"); a = b; ma = mb; break;
            case 5: mc::op("a = move(b)"); a = std::move(b); ma = mb; mb = M(); break;
            case 6: { mc::op("b = Q(a)"); Q c(a); same(c, ma, "copy"); b = c; mb = ma; break; }
            case 7: { mc::op("b = Q(move(a))"); Q c(std::move(a)); same(c, ma, "moved-to queue"); same(a, M(), "moved-from a"); b = std::move(c); mb = ma; ma = M(); break; }
            case 8: mc::op("a.clear()"); a.clear(); ma = M(); break;
            case 9: mc::op("a = Q(2)"); a = Q(2); ma = M(); ma.cap = 2; ma.valid = true; break;
        }
        same(a, ma, "a"); same(b, mb, "b");
    }
    std::string s; for (auto& x : ma.d) s += x.substr(15) + ","; s += "|"; for (auto& x : mb.d) s += x.substr(15) + ","; mc::outcome(s);
}
// capacities beyond 8 and 16 bits, filled and turned over several times
MC_SCENARIO(large, 0, 0, 0, 0, 0) {
    static const size_t C[] = {127, 128, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, 70000, 200000}; size_t cap = C[mc::choose(12)], n = cap * mc::choose(3) + mc::choose(3) - 1, drop = mc::choose(3); if ((long)n < 0) return; int how = mc::choose(3);
    learnlog::base::circular_queue<size_t> q(cap); std::deque<size_t> d; size_t over = 0, v = 0;
    for (int round = 0; round < 3; round++) {
        for (size_t i = 0; i < n; i++) { size_t x = v++; q.push_back(std::move(x)); d.push_back(v - 1); if (d.size() > cap) { d.pop_front(); over++; } }
        if (how == 1) { learnlog::base::circular_queue<size_t> c(q); q = c; } else if (how == 2) { learnlog::base::circular_queue<size_t> c(std::move(q)); q = std::move(c); }
        MC_CHECK(q.size() == d.size() && q.empty() == d.empty() && q.full() == (d.size() == cap) && q.override_count() == over, "capacity %zu, %zu elements pushed: size() %zu full() %d empty() %d override_count() %zu, expected size %zu and %zu overwritten", cap, v, q.size(), (int)q.full(), (int)q.empty(), q.override_count(), d.size(), over);
        for (size_t i = 0; i < d.size(); i++) if (q.at(i) != d[i]) mc::fail("capacity %zu: at(%zu) is %zu, expected %zu", cap, i, q.at(i), d[i]);
        size_t k = drop == 0 ? 0 : drop == 1 ? d.size() / 2 : d.size(); for (size_t i = 0; i < k; i++) { if (q.front() != d.front()) mc::fail("capacity %zu: front() is %zu, expected %zu", cap, q.front(), d.front()); q.pop_front(); d.pop_front(); }
    }
    mc::outcome(std::to_string(cap) + "/" + std::to_string(d.size()));
}
MC_SCENARIO(capacity_0, 6, 8, 0, 0, 0) { run(0, false); }
MC_SCENARIO(capacity_1, 9, 12, 0, 0, 0) { run(1, false); }
MC_SCENARIO(capacity_2, 10, 13, 0, 0, 0) { run(2, false); }
MC_SCENARIO(capacity_3, 12, 14, 0, 0, 0) { run(3, false); }
MC_SCENARIO(two_queues_1, 6, 7, 0, 0, 0) { run(1, true); }
MC_SCENARIO(two_queues_2, 6, 7, 0, 0, 0) { run(2, true); }
