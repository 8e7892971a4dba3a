// A reference reading of the pattern language, written from the table in the library's documentation.
#pragma once
#include "seq.h"
#include "definitions.h"
#include "base/log_msg.h"
#include "sinks/formatters/pattern_formatter.h"
#include <ctime>
#include <string>
#include <cstring>
#include <cstdio>
#include <unistd.h>
namespace ref {
using namespace learnlog;
struct Out { std::string text; size_t cs = 0, ce = 0; };
inline std::string num(long long v, int width = 0) { char b[64]; snprintf(b, sizeof b, "%0*lld", width, v); return b; }
struct Msg {        // what a message consists of; owns its texts
    std::string name, text; level::level_enum lvl; const char* file; int line; const char* func; long long ns; size_t tid;
    base::log_msg get() const {
        base::log_msg m(sys_clock::time_point(std::chrono::duration_cast<sys_clock::duration>(std::chrono::nanoseconds(ns))), source_loc(file, line, func), lvl, fmt_string_view(text.data(), text.size()), fmt_string_view(name.data(), name.size()));
        m.tid = tid; return m;
    }
};
struct Cust { char flag; std::string text; };
static const char* LV[7] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
// lastns: time of the formatter's previous message, for %W %X %Y %Z
inline Out format(const std::string& p, const Msg& m, const std::string& eol, long long lastns = 0, const std::vector<Cust>& cust = std::vector<Cust>()) {
    static const char* D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    static const char* N[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    time_t sec = (time_t)(m.ns / 1000000000LL); long long sub = m.ns % 1000000000LL; struct tm t; localtime_r(&sec, &t);
    std::string hms = num(t.tm_hour, 2) + ":" + num(t.tm_min, 2) + ":" + num(t.tm_sec, 2); bool loc = m.line > 0;
    long long el = m.ns > lastns ? m.ns - lastns : 0;
    Out o;
    for (size_t i = 0; i < p.size();) {
        if (p[i] != '%') { o.text += p[i++]; continue; }
        i++;
        char side = 'l'; bool pad = false, cut = false; size_t len = 0;
        if (i < p.size() && (p[i] == '-' || p[i] == '=')) side = p[i++] == '-' ? 'r' : 'c';
        if (i < p.size() && p[i] >= '0' && p[i] <= '9') { pad = true; while (i < p.size() && p[i] >= '0' && p[i] <= '9') { len = len * 10 + (p[i++] - '0'); if (len > 100000) len = 100000; } if (len > 64) len = 64; if (i < p.size() && p[i] == '!') { cut = true; i++; } }
        if (i >= p.size()) break;
        char f = p[i++]; std::string s; bool raw = false;
        size_t c = 0; for (; c < cust.size(); c++) if (cust[c].flag == f) break;
        if (c < cust.size()) s = cust[c].text;
        else switch (f) {
            case '+': {
                raw = true; s = "[" + num(t.tm_year + 1900, 4) + "-" + num(t.tm_mon + 1, 2) + "-" + num(t.tm_mday, 2) + " " + hms + "." + num(sub / 1000000, 3) + "] ";
                if (!m.name.empty()) s += "[" + m.name + "] ";
                s += "["; o.cs = o.text.size() + s.size(); s += LV[m.lvl]; o.ce = o.text.size() + s.size(); s += "] ";
                if (loc) s += std::string("[") + m.file + ":" + num(m.line, 5) + "] ";
                s += m.text; break;
            }
            case 'n': s = m.name; break; case 'l': s = LV[m.lvl]; break; case 'v': s = m.text; break;
            case 'a': s = D[t.tm_wday]; break; case 'b': s = N[t.tm_mon]; break;
            case 'c': s = std::string(D[t.tm_wday]) + " " + N[t.tm_mon] + " " + num(t.tm_mday, 2) + " " + hms + " " + num(t.tm_year + 1900, 4); break;
            case 'y': s = num(t.tm_year + 1900, 4); break; case 'm': s = num(t.tm_mon + 1, 2); break; case 'd': s = num(t.tm_mday, 2); break;
            case 'H': s = num(t.tm_hour, 2); break; case 'M': s = num(t.tm_min, 2); break; case 'S': s = num(t.tm_sec, 2); break;
            case 'E': s = num(sub / 1000000, 3); break; case 'F': s = num(sub / 1000, 6); break; case 'G': s = num(sub, 9); break;
            case 'T': s = hms; break;
            case 'W': s = num(el); break; case 'X': s = num(el / 1000); break; case 'Y': s = num(el / 1000000); break; case 'Z': s = num(el / 1000000000LL); break;
            case 'p': s = num(getpid()); break; case 't': s = num((long long)m.tid); break;
            case '^': raw = true; o.cs = o.text.size(); break; case '$': raw = true; o.ce = o.text.size(); break;
            case '@': if (loc) s = std::string(m.file) + ":" + num(m.line); break;
            case 'A': if (loc) s = m.file; break; case 'B': if (loc) s = num(m.line); break; case 'C': if (loc && m.func) s = m.func; break;
            case '%': raw = true; s = "%"; break;
            default: raw = true; s = std::string("%") + f;
        }
        if (!raw && pad) {
            if (s.size() < len) { size_t n = len - s.size(), l = side == 'l' ? n : side == 'c' ? n / 2 : 0; s = std::string(l, ' ') + s + std::string(n - l, ' '); }
            else if (cut && s.size() > len) s.resize(len);
        }
        o.text += s;
    }
    o.text += eol;
    return o;
}
inline void check(sinks::formatter& f, const std::string& pat, const Msg& m, const std::string& eol = "\n", long long lastns = 0, const std::vector<Cust>& cust = std::vector<Cust>()) {
    base::log_msg lm = m.get(); fmt_memory_buf b; f.format(lm, b);
    std::string got(b.data(), b.size()); Out w = format(pat, m, eol, lastns, cust);
    MC_CHECK(got == w.text, "pattern %s: the line is %s, expected %s", mc::quote(pat).c_str(), mc::quote(got).c_str(), mc::quote(w.text).c_str());
    MC_CHECK(lm.color_index_start == w.cs && lm.color_index_end == w.ce, "pattern %s: line %s is coloured from %zu to %zu, expected from %zu to %zu", mc::quote(pat).c_str(), mc::quote(got).c_str(), lm.color_index_start, lm.color_index_end, w.cs, w.ce);
    mc::count(1);
}
static const long long SEC = 1000000000LL;
// zones that need no zone files
static const char* ZONES[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
inline void zone(int z) { setenv("TZ", ZONES[z], 1); tzset(); }
}
