// Shared pieces of the asynchronous-logging harnesses (public API only).
#pragma once
#include "lmc.h"
#include "learnlog.h"
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "sinks/sink.h"
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <map>
#include <atomic>

namespace ll = learnlog;
typedef ll::base::lock_thread_pool LockPool;
typedef ll::base::lockfree_thread_pool FreePool;
typedef ll::base::lockfree_concurrent_thread_pool ConcPool;

// Records every message handed to it, in order; thread-safe like the library's own _mt sinks.
struct CapSink : ll::sinks::sink {
    struct Rec { std::string text, name; int level; size_t tid; long long ns; int line; std::string file, func; };
    std::mutex m;
    std::vector<Rec> recs;
    std::vector<size_t> flush_at;      // number of records already present at each flush
    std::vector<std::thread::id> by;
    void log(const ll::base::log_msg& msg) override {
        Rec r;
        r.text.assign(msg.msg.data(), msg.msg.size());
        r.name.assign(msg.logger_name.data(), msg.logger_name.size());
        r.level = msg.level; r.tid = msg.tid; r.line = msg.loc.line;
        r.file = msg.loc.filename ? msg.loc.filename : ""; r.func = msg.loc.funcname ? msg.loc.funcname : "";
        r.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(msg.time.time_since_epoch()).count();
        std::lock_guard<std::mutex> g(m);
        lmc::note("sink gets \"%s\"", r.text.c_str());
        recs.push_back(r);
    }
    void flush() override { std::lock_guard<std::mutex> g(m); lmc::note("sink flushed after %zu", recs.size()); flush_at.push_back(recs.size()); }
    void set_pattern(const std::string&) override {}
    void set_formatter(ll::formatter_uni_ptr) override {}
    size_t count(const std::string& t) { std::lock_guard<std::mutex> g(m); size_t n = 0; for (auto& r : recs) n += r.text == t; return n; }
};
// Same, but without any lock: legal when one thread at a time uses it (single worker).
struct RawSink : CapSink {
    void log(const ll::base::log_msg& msg) override {
        Rec r; r.text.assign(msg.msg.data(), msg.msg.size()); r.name.assign(msg.logger_name.data(), msg.logger_name.size());
        r.level = msg.level; r.tid = msg.tid; r.line = msg.loc.line; r.ns = 0;
        lmc::note("sink gets \"%s\"", r.text.c_str());
        recs.push_back(r);
    }
    void flush() override { lmc::note("sink flushed after %zu", recs.size()); flush_at.push_back(recs.size()); }
};
// takes its time: whoever waits for it has to wait
struct SlowSink : CapSink {
    int ms; explicit SlowSink(int ms_ = 3600000) : ms(ms_) {}
    void log(const ll::base::log_msg& m) override { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); CapSink::log(m); std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
    void flush() override { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); CapSink::flush(); }
};
inline std::string mtext(int p, int i) { return "p" + std::to_string(p) + "m" + std::to_string(i); }
inline std::string show(const std::vector<CapSink::Rec>& v) { std::string s; for (auto& r : v) { s += r.text; s += ' '; } return s; }

// every accepted message exactly once, nothing else
inline void check_once(CapSink& s, int P, int N, const char* when) {
    for (int p = 0; p < P; p++) for (int i = 0; i < N; i++) {
        size_t c = s.count(mtext(p, i));
        LMC_CHECK(c == 1, "%s: message %s was delivered %zu times (delivered: %s)", when, mtext(p, i).c_str(), c, show(s.recs).c_str());
    }
    LMC_CHECK(s.recs.size() == (size_t)(P * N), "%s: %zu messages delivered, %d logged: %s", when, s.recs.size(), P * N, show(s.recs).c_str());
}
inline void check_order(CapSink& s, int P, const char* when) {
    for (int p = 0; p < P; p++) {
        int last = -1; std::string pre = "p" + std::to_string(p) + "m";
        for (auto& r : s.recs) if (r.text.compare(0, pre.size(), pre) == 0) {
            int i = atoi(r.text.c_str() + pre.size());
            LMC_CHECK(i > last, "%s: messages of thread %d out of order: %s", when, p, show(s.recs).c_str());
            last = i;
        }
    }
}
