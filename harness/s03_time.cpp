// S03: the time directives depend on the message's own time only, whatever was formatted before; %W %X %Y %Z count from the previous message.
#include "ref_format.h"
using namespace ref;
typedef sinks::pattern_formatter PF;
static Msg at(long long ns) { return {"n", "t", level::info, nullptr, 0, nullptr, ns, 3}; }
static const char* ALL = "%+|%a %b %c %y-%m-%d %H:%M:%S %E %F %G %T";
// instants around which calendars, seconds and fractions change
static const long long I[] = {0, 1, 999999, 1000000, 999999999, 1 * SEC, 59 * SEC + 999999999, 60 * SEC, 3600 * SEC, 86399 * SEC + 999000000, 86400 * SEC, 951782399LL * SEC, 951868800LL * SEC, 1078012800LL * SEC + 99, 978307199LL * SEC + 999999999,
    978307200LL * SEC, 1710053999LL * SEC, 1710054000LL * SEC, 1730613599LL * SEC, 1730613600LL * SEC, 1727531999LL * SEC, 1727532000LL * SEC, 1712411999LL * SEC, 1712412000LL * SEC, 2147483647LL * SEC, 2147483648LL * SEC, 4107542399LL * SEC + 123456789, 4107542400LL * SEC};
static const int NI = sizeof I / sizeof *I;
MC_SCENARIO(instants, 0, 0, 0, 0, 0) {
    int z = mc::choose(4); zone(z); int base = mc::choose(NI);
    static const char* P[] = {"%+", "%a", "%b", "%c", "%y", "%m", "%d", "%H", "%M", "%S", "%E", "%F", "%G", "%T", ALL};
    for (const char* p : P) for (long long d : {-1LL, 0LL, 1LL, 999LL, 1000LL, 999999LL, 1000000LL, SEC - 1, SEC, 60 * SEC, 3600 * SEC, 86400 * SEC, 31 * 86400 * SEC, 366 * 86400 * SEC}) {
        long long t = I[base] + d; if (t < 0) continue;
        PF f(p); check(f, p, at(t));
    }
    mc::outcome(std::to_string(z) + "/" + std::to_string(base));
}
// every day of four years and every second of a day
MC_SCENARIO(calendar, 0, 0, 0, 0, 0) {
    int z = mc::choose(4); zone(z); int half = mc::choose(24); PF f(ALL);
    if (half < 12) for (long long day = half; day < 1600; day += 12) check(f, ALL, at((1672531200LL + day * 86400 + day * 37 % 86400) * SEC + day * 1234567));
    else for (long long s = half - 12; s < 86400; s += mc::thorough() ? 12 : 12 * 7) check(f, ALL, at((1710028800LL + s) * SEC + s * 11503));
    mc::outcome(std::to_string(z) + "/" + std::to_string(half));
}
// histories: forwards, backwards, within a second, across zones' switches; one formatter, and its clones
MC_SCENARIO(histories, 5, 6, 0, 0, 0) {
    static const long long T[] = {1710054000LL * SEC - 1, 1710054000LL * SEC, 1710054000LL * SEC + 500000000, 1710054000LL * SEC + 999999999, 1710054001LL * SEC, 1710053999LL * SEC + 1000000, 1700000000LL * SEC, 0, 500000000, 1 * SEC};
    zone(1); static const char* P[] = {"%+", ALL, "%c %E"}; const char* p = P[mc::choose(3)]; std::unique_ptr<sinks::formatter> f(new PF(p)); std::string h;
    for (int i = 0; i < mc::depth(); i++) {
        int c = mc::choose(12);
        if (c == 10) { mc::op("clone"); f = f->clone(); continue; }
        if (c == 11) { mc::op("set_pattern"); static_cast<PF*>(f.get())->set_pattern(p); continue; }
        mc::op("format at %lld ns", T[c]); check(*f, p, at(T[c])); h += std::to_string(c) + ",";
    }
    mc::outcome(h);
}
// instants that differ in any set of calendar fields (the others being equal), one after the other
MC_SCENARIO(fields, 0, 0, 0, 0, 0) {
    int z = mc::choose(4); zone(z); int a = mc::choose(128), cl = mc::choose(3); static const char* P[] = {"%+", ALL, "%c %E"};
    auto when = [](int k) { std::tm t{}; t.tm_year = k & 1 ? 124 : 123; t.tm_mon = k & 2 ? 4 : 6; t.tm_mday = k & 4 ? 11 : 10; t.tm_hour = k & 8 ? 6 : 5; t.tm_min = k & 16 ? 8 : 7; t.tm_sec = k & 32 ? 9 : 3; t.tm_isdst = -1; return mktime(&t) * SEC + (k & 64 ? 501 : 0) * 1000001LL; };
    for (const char* p : P) { std::unique_ptr<sinks::formatter> f(new PF(p)); for (int b = 0; b < 128; b++) { check(*f, p, at(when(a))); if (cl == 1) f = f->clone(); if (cl == 2) static_cast<PF*>(f.get())->set_pattern(p); check(*f, p, at(when(b))); } }
    mc::outcome(std::to_string(z) + "/" + std::to_string(a));
}
// instants whose distance, in any unit, is a power of two: one after the other
MC_SCENARIO(distances, 0, 0, 0, 0, 0) {
    int u = mc::choose(6), e = mc::choose(63), b = mc::choose(3), z = mc::choose(2); zone(z); static const long long U[] = {1, 1000, 1000000, SEC, 60 * SEC, 86400 * SEC}, B[] = {0, 1, 1700000000LL * SEC + 123456789}; if ((1ULL << e) > 9000000000000000000ULL / U[u]) return; long long d = (1LL << e) * U[u]; if (B[b] > 9000000000000000000LL - d) return;
    static const char* P[] = {"%+", ALL, "%c %E"}; for (const char* p : P) for (int k = 0; k < 3; k++) { long long x = B[b] + (k == 1), y = B[b] + d - (k == 2); std::unique_ptr<sinks::formatter> f(new PF(p)); check(*f, p, at(x)); check(*f, p, at(y)); check(*f, p, at(x)); f = f->clone(); check(*f, p, at(y)); }
    mc::outcome(std::to_string(u) + "/" + std::to_string(e));
}
MC_SCENARIO(elapsed_distances, 0, 0, 0, 0, 0) {
    int u = mc::choose(6), e = mc::choose(63); zone(0); static const long long U[] = {1, 1000, 1000000, SEC, 60 * SEC, 86400 * SEC}; if ((1ULL << e) > 9000000000000000000ULL / U[u]) return; long long d = (1LL << e) * U[u];
    const char* p = "%W %X %Y %Z %25W|%-25X|%=5!Y"; for (int k = -1; k < 2; k++) { if (d + k < 0) continue; PF f(p); check(f, p, at(5), "\n", 9200000000000000000LL); check(f, p, at(5 + d + k), "\n", 5); check(f, p, at(7), "\n", 5 + d + k); }
    mc::outcome(std::to_string(u) + "/" + std::to_string(e));
}
// time since the previous message
MC_SCENARIO(elapsed, 5, 6, 0, 0, 0) {
    static const long long T[] = {1700000000LL * SEC, 1700000000LL * SEC + 1, 1700000000LL * SEC + 999, 1700000000LL * SEC + 1000, 1700000000LL * SEC + 1999999, 1700000000LL * SEC + SEC - 1, 1700000001LL * SEC, 1700000061LL * SEC + 5, 1600000000LL * SEC, 1 * SEC};
    static const char* P[] = {"%W %v", "%X", "%Y", "%Z", "<%12W|%-9X|%=8Y|%2!Z>", "%W%X%Y%Z%+"}; zone(0);
    const char* p = P[mc::choose(6)]; PF f(p); long long last = 1900000000LL * SEC * 4; std::string h;     // every message is older than the formatter: nothing has elapsed
    for (int i = 0; i < mc::depth(); i++) { int c = mc::choose(10); mc::op("format at %lld ns", T[c]); check(f, p, at(T[c]), "\n", last); last = T[c]; h += std::to_string(c) + ","; }
    mc::outcome(h);
}
MC_SCENARIO(first_elapsed, 0, 0, 0, 0, 0) {    // the first message counts from the formatter's creation
    long long now = std::chrono::duration_cast<std::chrono::nanoseconds>(sys_clock::now().time_since_epoch()).count();
    const char* P[] = {"%W", "%X", "%Y", "%Z"}; long long U[] = {1, 1000, 1000000, SEC}; int k = mc::choose(4); bool cl = mc::choose(2);
    std::unique_ptr<sinks::formatter> f(new PF(P[k])); if (cl) f = f->clone();
    long long t = now + 5000 * SEC; base::log_msg m = at(t).get(); fmt_memory_buf b; f->format(m, b);
    long long v = atoll(std::string(b.data(), b.size()).c_str()), now2 = std::chrono::duration_cast<std::chrono::nanoseconds>(sys_clock::now().time_since_epoch()).count();
    MC_CHECK(v <= (t - now) / U[k] && v >= (t - now2) / U[k], "%s is %lld for a message %lld ns after the formatter was made", P[k], v, t - now);
    mc::outcome(P[k]);
}
// the date strings of error reports and of os.h
MC_SCENARIO(date_strings, 0, 0, 0, 0, 0) {
    int z = mc::choose(4); zone(z); long long t0 = I[mc::choose(NI)];
    for (long long d : {0LL, 1LL, 999999999LL, 86400 * SEC}) for (size_t n : {(size_t)30, (size_t)64}) {
        long long t = t0 + d; std::vector<char> b(n, 'x'); sys_clock::time_point tp{std::chrono::duration_cast<sys_clock::duration>(std::chrono::nanoseconds(t))}; time_t s = t / SEC; std::tm tm; localtime_r(&s, &tm);
        char want[100]; snprintf(want, sizeof want, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        base::os::time_point_to_datetime_sec(b.data(), n, tp); MC_CHECK(!strcmp(b.data(), want), "datetime_sec of %lld ns: %.60s, expected %s", t, b.data(), want); snprintf(want + strlen(want), 20, ".%09lld", t % SEC);
        base::os::time_point_to_datetime_nsec(b.data(), n, tp); MC_CHECK(!strcmp(b.data(), want), "datetime_nsec of %lld ns: %.60s, expected %s", t, b.data(), want);
    }
    mc::outcome(std::to_string(z) + "/" + std::to_string(t0));
}
