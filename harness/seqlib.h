#pragma once
#include "seq.h"
#include "learnlog.h"
#include "sinks/sink.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
namespace ll = learnlog;
typedef ll::level::level_enum Lv;
struct Rec { std::string text, name, file, func; int level, line; long long ns; size_t tid; };
struct RecSink : ll::sinks::sink {
    std::vector<Rec> recs; int flushes = 0; std::vector<std::string>* journal = nullptr; std::string id;
    std::string pattern = "?"; int fmts = 0; ll::formatter_uni_ptr fm;
    int bad = 0;                  // 1: log() throws, 2: flush() throws
    void log(const ll::base::log_msg& m) override {
        if (journal) journal->push_back(id + ":" + std::string(m.msg.data(), m.msg.size()));
        if (bad & 1) throw std::runtime_error(id + " log failure");
        Rec r; r.text.assign(m.msg.data(), m.msg.size()); r.name.assign(m.logger_name.data(), m.logger_name.size()); r.level = m.level; r.line = m.loc.line; r.file = m.loc.filename ? m.loc.filename : ""; r.func = m.loc.funcname ? m.loc.funcname : "";
        r.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count(); r.tid = m.tid; recs.push_back(r);
    }
    void flush() override { if (journal) journal->push_back(id + ":flush"); if (bad & 2) throw std::runtime_error(id + " flush failure"); flushes++; }
    void set_pattern(const std::string& p) override { pattern = p; fm.reset(); }
    void set_formatter(ll::formatter_uni_ptr f) override { fm = std::move(f); fmts++; }
    // what a message looks like under the formatter this sink was given last
    std::string shape() { if (!fm) return "none"; ll::base::log_msg m(ll::level::warn, "msg", "nm"); ll::fmt_memory_buf b; fm->format(m, b); return std::string(b.data(), b.size()); }
};
inline long long now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(ll::sys_clock::now().time_since_epoch()).count(); }
// what went to stderr since a mark
struct Err {
    off_t at; Err() { mark(); }
    void mark() { struct stat s; fstat(2, &s); at = s.st_size; }
    std::string text() { std::string o; char b[4096]; off_t p = at; ssize_t k; while ((k = pread(2, b, sizeof b, p)) > 0) { o.append(b, k); p += k; } return o; }
    int reports() { std::string s = text(); int n = 0; size_t p = 0; while ((p = s.find("[*** EXCEPTION #", p)) != std::string::npos) { n++; p++; } return n; }
    bool has(const std::string& x) { return text().find(x) != std::string::npos; }
};
inline bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline std::string slurp(const std::string& p) { std::string o; int f = open(p.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return "<missing>"; char b[65536]; ssize_t k; while ((k = read(f, b, sizeof b)) > 0) o.append(b, k); close(f); return o; }
inline void spit(const std::string& p, const std::string& s) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (f < 0) return; if (write(f, s.data(), s.size())) {} close(f); }
inline std::vector<std::string> ls(const std::string& d) { std::vector<std::string> v; DIR* x = opendir(d.c_str()); if (!x) return v; while (dirent* e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(x); std::sort(v.begin(), v.end()); return v; }
inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += x; s += ' '; } return s; }
