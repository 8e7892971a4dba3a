// S02: every directive of the pattern language, in every combination of up to `depth` pattern elements.
#include "ref_format.h"
#include <sys/wait.h>
using namespace ref;
typedef sinks::pattern_formatter PF;
static const std::vector<Msg>& msgs() {
    static std::vector<Msg> v;
    if (v.empty()) {
        v.push_back({"logger name", "the text", level::info, "file.cpp", 7, "func()", 1729963730LL * SEC + 1002003, 4242});
        v.push_back({"", "", level::trace, nullptr, 0, nullptr, 951782399LL * SEC + 999999999, 1});
        v.push_back({"n", std::string("a\0b%v{}\n", 8), level::critical, "a/b.h", 123456, nullptr, 1709208000LL * SEC, 4194304});
        v.push_back({"[n]", std::string(600, 'x'), level::off, "f", -1, "g", 4102444799LL * SEC + 10020030, 99999});
        v.push_back({"name", "warned", level::warn, "", 1, "", 946684800LL * SEC + 1, 10});
        v.push_back({"e", "\xe6\x97\xa5\xe5\xbf\x97", level::error, "x.cc", 99999, "f", 1LL * SEC + 999000000, 5});
        v.push_back({"d", " ", level::debug, "x.cc", 2147483647, "f", 68256000LL * SEC + 900000, 5});
    }
    return v;
}
static const char* EL[] = {"%+", "%n", "%l", "%a", "%b", "%c", "%y", "%m", "%d", "%H", "%M", "%S", "%E", "%F", "%G", "%T", "%p", "%t", "%v", "%^", "%$", "%@", "%A", "%B", "%C", "%%",
    "text", " ", "[", "%x", "%-", "%9", "%8l", "%-8l", "%=8l", "%2!l", "%1", "%q", "=", "-", "!", "5", "%\n", "%~"};
static const int NEL = sizeof EL / sizeof *EL;
static void sequences(int maxlen) {
    std::string p; std::string h;
    for (int i = 0; i < maxlen; i++) { int c = mc::choose(NEL + 1); if (c == 0) break; p += EL[c - 1]; h += EL[c - 1]; h += ' '; }
    mc::op("pattern %s", mc::quote(p).c_str());
    zone(0);
    PF f(p);
    for (auto& m : msgs()) check(f, p, m);
    auto c = f.clone();
    check(*c, p, msgs()[0]);
    mc::outcome(h.substr(0, 200));
}
MC_SCENARIO(elements, 3, 4, 0, 0, 0) { sequences(mc::depth()); }
// every possible directive character, bare and with every padding form in front, at the start, middle and end of a pattern
MC_SCENARIO(every_byte, 0, 0, 0, 0, 0) {
    int ch = mc::choose(256); zone(0);
    if (ch >= 'W' && ch <= 'Z') return;       // S03
    static const char* pre[] = {"", "5", "-5", "=5", "5!", "-5!", "=5!", "-", "=", "0", "00", "!", "64", "65!", "-64", "007"};
    for (const char* x : pre) for (int k = 0; k < 4; k++) {
        std::string p = std::string(k & 1 ? "<" : "") + "%" + x + (char)ch + (k & 2 ? ">" : "");
        PF f(p); for (auto& m : msgs()) check(f, p, m);
    }
    mc::outcome(std::to_string(ch));
}
// short patterns of arbitrary bytes of the pattern alphabet
MC_SCENARIO(raw_patterns, 5, 6, 0, 0, 0) {
    static const char A[] = "%-=!1lv+^$ "; std::string p;
    for (int i = 0; i < mc::depth(); i++) { int c = mc::choose(sizeof A); if (c == 0) break; p += A[c - 1]; }
    mc::op("pattern %s", mc::quote(p).c_str()); zone(0);
    PF f(p); check(f, p, msgs()[0]); check(f, p, msgs()[1]); check(f, p, msgs()[2]);
    mc::outcome(p);
}
// pattern changes, line ends, custom directives and clones, in every order
struct CustFlag : sinks::custom_flag_formatter {
    std::string t; explicit CustFlag(std::string s) : t(std::move(s)) {}
    void format(const base::log_msg&, const std::tm&, fmt_memory_buf& b) override { sinks::filler f(t.size(), spaces_info_, b); f.fill_msg(fmt_string_view(t.data(), t.size())); }
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<sinks::custom_flag_formatter>(new CustFlag(t)); }
};
MC_SCENARIO(changes, 5, 6, 0, 0, 0) {
    static const char* P[] = {"%+", "%v", "<%q> %v", "%-6q|%l", "%2!q%v%%", "", "%^%l%$ %q"}; zone(0);
    static const char* EOL[] = {"\n", "", "\r\n", "<end>"};
    std::string eol = EOL[mc::choose(4)], p = P[0]; std::vector<Cust> cust, active;
    std::unique_ptr<sinks::formatter> hold; PF* f = new PF(p, eol); hold.reset(f);
    for (int i = 0; i < mc::depth(); i++) {
        int o = mc::choose(11);
        if (o < 7) { p = P[o]; mc::op("set_pattern(%s)", p.c_str()); f->set_pattern(p); active = cust; }
        else if (o == 7) { mc::op("add_custom_flag(q, CUSTOM)"); f->add_custom_flag<CustFlag>('q', "CUSTOM"); for (size_t k = 0; k < cust.size(); k++) if (cust[k].flag == 'q') cust.erase(cust.begin() + k); cust.push_back({'q', "CUSTOM"}); f->set_pattern(p); active = cust; }
        else if (o == 8) { mc::op("add_custom_flag(l, x)"); f->add_custom_flag<CustFlag>('l', "x"); for (size_t k = 0; k < cust.size(); k++) if (cust[k].flag == 'l') cust.erase(cust.begin() + k); cust.push_back({'l', "x"}); f->set_pattern(p); active = cust; }
        else if (o == 9) { mc::op("clone()"); hold = f->clone(); f = dynamic_cast<PF*>(hold.get()); MC_CHECK(f, "clone() of a pattern formatter is not one"); }
        else { mc::op("format"); }
        check(*f, p, msgs()[0], eol, 0, active); check(*f, p, msgs()[2], eol, 0, active);
    }
    mc::outcome(p + eol + std::to_string(cust.size()));
}
// patterns and texts of any length
MC_SCENARIO(sizes, 0, 0, 0, 0, 0) {
    static const size_t N[] = {1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 499, 500, 501, 1023, 1024, 1025, 4096, 32768, 65536, 70000}; size_t n = N[mc::choose(24)]; int k = mc::choose(9); zone(0); std::string p; static const char* MANY[] = {"%v", "%l", "%n ", "%5!l", "%%", "%t", "%^%$", "%H:%M"};
    if (k == 0) { p = std::string(n, 'z'); for (size_t i = 0; i < n; i++) p[i] = (char)('a' + i % 26); p = p + "%v" + p + "%^%l%$" + p; } else { if (n > 4096) return; for (size_t i = 0; i < n; i++) p += MANY[(k - 1 + (k == 8 ? i : 0)) % 8]; }
    PF f(p); for (int i : {0, 1, 2, 5}) check(f, p, msgs()[i]); auto c = f.clone(); check(*c, p, msgs()[0]); mc::outcome(std::to_string(n) + "/" + std::to_string(k));
}
MC_SCENARIO(message_sizes, 0, 0, 0, 0, 0) {
    static const size_t N[] = {249, 250, 251, 499, 500, 501, 1000, 32767, 32768, 65535, 65536, 70000, 1 << 20, 17 << 20}; size_t n = N[mc::choose(14)]; int k = mc::choose(4); zone(0); std::string s(n, 'q'); for (size_t i = 0; i < n; i += 7) s[i] = (char)('a' + i % 23); static const int LN[] = {1, 9, 10, 32767, 32768, 65535, 65536, 2147483647}; static const size_t ID[] = {0, 9, 10, 65535, 65536, 4194304, 4294967295u, 4294967296u, 18446744073709551615u % 9223372036854775807u};
    Msg m{k == 0 ? s : "n", k == 1 ? s : "text", level::warn, k == 2 ? s.c_str() : "f.c", LN[n % 8], k == 3 ? s.c_str() : "fn", 1700000000LL * SEC, ID[n % 9]};
    for (const char* p : {"%+", "%n|%v|%A|%C|%@|%B|%t", "%5!n%5!v%5!A%5!C%-5!@", "%64n%-64v%=64A%64C%64@", "%^%n%v%$%A%^%C%$"}) for (int l : LN) for (size_t id : ID) { if (n > 100000 && (l != 65536 || id != 65536)) continue; m.line = l; m.tid = id; PF f(p); check(f, p, m); }
    mc::outcome(std::to_string(n) + "/" + std::to_string(k));
}
// any byte may name a custom directive, and any number of them may be there at once
struct ByteFlag : sinks::custom_flag_formatter {
    std::string t; explicit ByteFlag(std::string s) : t(std::move(s)) {}
    void format(const base::log_msg&, const std::tm&, fmt_memory_buf& b) override { sinks::filler f(t.size(), spaces_info_, b); f.fill_msg(fmt_string_view(t.data(), t.size())); }
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<sinks::custom_flag_formatter>(new ByteFlag(t)); }
};
static bool directive(int ch) { return ch != '%' && ch != '-' && ch != '=' && ch != '!' && !(ch >= '0' && ch <= '9'); }
MC_SCENARIO(custom_bytes, 0, 0, 0, 0, 0) {
    int ch = mc::choose(256); zone(0); if (!directive(ch)) return; std::string c(1, (char)ch), p = "%v%" + c + "%l|%-9" + c + "|%3!" + c + "%" + std::string(1, (char)(ch ^ 128)); if (!directive(ch ^ 128) || ((ch ^ 128) >= 'W' && (ch ^ 128) <= 'Z')) p.resize(p.size() - 2);
    PF f; f.add_custom_flag<ByteFlag>((char)ch, "custom"); f.set_pattern(p); std::vector<Cust> cu{{(char)ch, "custom"}}; check(f, p, msgs()[0], "\n", 0, cu); auto d = f.clone(); check(*d, p, msgs()[0], "\n", 0, cu); dynamic_cast<PF&>(*d).set_pattern("%" + c); check(*d, "%" + c, msgs()[1], "\n", 0, cu); mc::outcome(std::to_string(ch));
}
// a custom directive sees the message and its local time, whatever else the pattern has
struct SeeFlag : sinks::custom_flag_formatter {
    static std::string tm_str(const std::tm& t) { char b[100]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S %a %j", &t); return b; }
    void format(const base::log_msg& m, const std::tm& t, fmt_memory_buf& b) override { std::string s = tm_str(t) + "/" + std::string(m.logger_name.data(), m.logger_name.size()) + "/" + std::to_string(m.level) + "/" + std::string(m.msg.data(), m.msg.size()) + "/" + std::to_string(m.loc.line) + "/" + std::to_string(m.tid) + "/" + std::to_string(m.time.time_since_epoch().count()); b.append(s.data(), s.data() + s.size()); }
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<sinks::custom_flag_formatter>(new SeeFlag); }
};
MC_SCENARIO(custom_sees, 0, 0, 0, 0, 0) {
    static const char* P[] = {"%q", "%v", "%l %n", "%H", "%+", "%E", "x", "%^%$", "%q%q", "%G", ""}; std::string p = std::string(P[mc::choose(11)]) + "%q" + P[mc::choose(11)]; int z = mc::choose(3); zone(z); PF f; f.add_custom_flag<SeeFlag>('q'); f.set_pattern(p); int a = mc::choose(7), b = mc::choose(7); auto c = f.clone();
    for (int i : {a, b, a}) { const Msg& m = msgs()[i]; std::time_t t = m.ns / SEC; std::tm tm; localtime_r(&t, &tm); std::string w = SeeFlag::tm_str(tm) + "/" + m.name + "/" + std::to_string(m.lvl) + "/" + m.text + "/" + std::to_string(m.line) + "/" + std::to_string(m.tid) + "/" + std::to_string(m.ns); std::vector<Cust> cu{{'q', w}}; check(f, p, m, "\n", 0, cu); check(*c, p, m, "\n", 0, cu); }
    mc::outcome(p);
}
MC_SCENARIO(all_custom, 0, 0, 0, 0, 0) { zone(0); PF f; std::vector<Cust> cu; std::string p; int step = 1 + mc::choose(5); for (int ch = 0; ch < 256; ch += step) if (directive(ch)) { f.add_custom_flag<ByteFlag>((char)ch, "<" + std::to_string(ch) + ">"); cu.push_back({(char)ch, "<" + std::to_string(ch) + ">"}); p += "%"; p += (char)ch; } f.set_pattern(p); check(f, p, msgs()[0], "\n", 0, cu); auto d = f.clone(); check(*d, p, msgs()[0], "\n", 0, cu); mc::outcome(std::to_string(step)); }
MC_SCENARIO(default_formatter, 0, 0, 0, 0, 0) { zone(0); PF f; for (auto& m : msgs()) check(f, "%+", m); auto c = f.clone(); for (auto& m : msgs()) check(*c, "%+", m); auto d = c->clone(); check(*d, "%+", msgs()[0]); mc::outcome("ok"); }
// a process that forked: each process shows its own number
MC_SCENARIO(forked, 0, 0, 0, 0, mc::F_FORK) {
    zone(0); int before = mc::choose(2), cl = mc::choose(2), again = mc::choose(2); PF f("%p|%8p|%v"); const Msg& m = msgs()[4]; auto show = [&](PF& x) { learnlog::fmt_memory_buf b; learnlog::source_loc l(m.file, m.line, m.func); base::log_msg lm(l, (level::level_enum)m.lvl, m.text, m.name); x.format(lm, b); return std::string(b.data(), b.size()); };
    auto want = [&](int pid) { char s[80]; snprintf(s, sizeof s, "%d|%8d|", pid, pid); return s + m.text + "\n"; };
    if (before) MC_CHECK(show(f) == want(getpid()), "before the fork: %s", show(f).c_str());
    int p[2]; if (pipe(p)) mc::fail("pipe"); pid_t c = fork(); if (!c) { auto k = f.clone(); std::string t = show(cl ? static_cast<PF&>(*k) : f); if (::write(p[1], t.data(), t.size()) < 0) _exit(1); _exit(0); }
    close(p[1]); char buf[200]; std::string got; ssize_t r; while ((r = ::read(p[0], buf, sizeof buf)) > 0) got.append(buf, r); close(p[0]); int st; waitpid(c, &st, 0);
    MC_CHECK(got == want(c), "the child %d wrote %s", (int)c, mc::quote(got).c_str()); if (again) MC_CHECK(show(f) == want(getpid()), "after the fork: %s", show(f).c_str()); mc::outcome(std::to_string(before) + std::to_string(again));
}
