// S09: console sinks write to their own stream; colour codes appear exactly around the marked range, only on colour terminals.
#include "seqlib.h"
#include "ref_format.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
#include "logger.h"
#include <pty.h>
#include <termios.h>
#include <stdlib.h>
static const char* const CODE[7] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m", "\033[m"};
struct Tty { int m, s; FILE* f; Tty() : m(-1), s(-1), f(nullptr) {}
    bool open() { m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) return false; char n[100]; if (ptsname_r(m, n, sizeof n)) return false; s = ::open(n, O_RDWR | O_NOCTTY); if (s < 0) return false; termios t; tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t); fcntl(m, F_SETFL, O_NONBLOCK); f = fdopen(s, "w"); return f != nullptr; }
    std::string read() { fflush(f); std::string o; char b[4096]; ssize_t k; while ((k = ::read(m, b, sizeof b)) > 0) o.append(b, k); return o; } };
static Tty& tty() { static Tty t; if (t.m < 0) { setenv("TERM", "xterm", 1); unsetenv("COLORTERM"); MC_CHECK(t.open(), "no pseudo terminal"); } return t; }
static std::string coloured(const ref::Out& o, const std::string& code) { if (o.ce <= o.cs) return o.text; return o.text.substr(0, o.cs) + code + o.text.substr(o.cs, o.ce - o.cs) + "\033[m" + o.text.substr(o.ce); }
static ref::Msg message(int lv, const std::string& t) { ref::Msg m; m.name = "lg"; m.text = t; m.lvl = (Lv)lv; m.file = "f.cpp"; m.line = 7; m.func = "fn"; m.ns = 1700000000123456789LL; m.tid = 42; return m; }
typedef ll::sinks::ansicolor_sink<ll::base::static_mutex> Sink;
// which terminals are coloured
MC_SCENARIO(terminals, 0, 0, 0, 0, mc::F_FORK) {
    static const char* const T[] = {nullptr, "", "dumb", "ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102", "xterm-256color", "rxvt-unicode", "vt220", "XTERM", "my-xterm", "tmux", "xter", "vt10", "screen.linux"};
    int nt = sizeof T / sizeof *T, t = mc::choose(nt), c = mc::choose(3), kind = mc::choose(4); setenv("LC_ALL", "C", 1);
    Tty tt; MC_CHECK(tt.open(), "no pseudo terminal"); if (T[t]) setenv("TERM", T[t], 1); else unsetenv("TERM"); if (c) setenv("COLORTERM", c == 1 ? "" : "truecolor", 1); else unsetenv("COLORTERM");
    std::string p = std::string(mc::scratch()) + "/f"; int pp[2] = {-1, -1}; FILE* f = tt.f; if (kind == 1) f = fopen(p.c_str(), "w"); if (kind == 2) { MC_CHECK(pipe(pp) == 0, "pipe"); f = fdopen(pp[1], "w"); } if (kind == 3) f = fopen("/dev/null", "w");
    bool term = c != 0; for (int i = 3; i < 19 && T[t]; i++) if (strstr(T[t], T[i])) term = true;
    Sink s(f); s.set_pattern("a%^b%$c"); auto m = message(4, "x"); s.log(m.get()); s.flush(); std::string o; if (kind == 0) o = tt.read(); else if (kind == 1) o = slurp(p); else if (kind == 2) { char b[200]; ssize_t k = read(pp[0], b, sizeof b); o.assign(b, k > 0 ? k : 0); } else { mc::outcome("null"); return; }
    std::string want = kind == 0 && term ? "a\033[31m\033[1mb\033[mc\n" : "abc\n"; MC_CHECK(o == want, "TERM=%s COLORTERM=%s on a %s: wrote %s, expected %s", T[t] ? T[t] : "(unset)", c ? c == 1 ? "(empty)" : "truecolor" : "(unset)", kind == 0 ? "terminal" : kind == 1 ? "file" : "pipe", mc::quote(o).c_str(), mc::quote(want).c_str()); mc::outcome(o + std::to_string(kind));
}
// several colour sinks of one class on streams of different kinds, in one process, in every order
template <class S> static void mixed() {
    Tty tt; MC_CHECK(tt.open(), "no pseudo terminal"); setenv("TERM", "xterm", 1); unsetenv("COLORTERM"); std::string d = mc::scratch(); int n = 2 + mc::choose(3); std::vector<int> tty_; std::vector<std::unique_ptr<S>> v; std::vector<FILE*> f;
    for (int i = 0; i < n; i++) { tty_.push_back(mc::choose(2)); FILE* x = tty_[i] ? tt.f : fopen((d + "/f" + std::to_string(i)).c_str(), "w"); f.push_back(x); v.emplace_back(new S(x)); v[i]->set_pattern("a%^b%$c"); }
    for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) { int k = r ? n - 1 - i : i; auto m = message(4, "x"); v[k]->log(m.get()); v[k]->flush(); std::string o = tty_[k] ? tt.read() : slurp(d + "/f" + std::to_string(k)), one = tty_[k] ? "a\033[31m\033[1mb\033[mc\n" : "abc\n", want = r && !tty_[k] ? one + one : one; MC_CHECK(o == want, "sink %d of %d, on a %s: wrote %s", k, n, tty_[k] ? "terminal" : "file", mc::quote(o).c_str()); }
    std::string o; for (int i = 0; i < n; i++) o += std::to_string(tty_[i]); mc::outcome(o);
}
MC_SCENARIO(mixed_streams, 0, 0, 0, 0, mc::F_FORK) { if (mc::choose(2)) mixed<Sink>(); else mixed<ll::sinks::ansicolor_sink<ll::base::static_nullmutex>>(); }
// where the colour goes: every pattern of up to `depth` elements, every level
MC_SCENARIO(ranges, 4, 5, 0, 0, 0) {
    static const char* const E[] = {"%^", "%$", "%v", "x", "%l", "%+", "%-9l", "%3!v"}; std::string p; int len = mc::choose(mc::depth() + 1); for (int i = 0; i < len; i++) p += E[mc::choose(8)];
    Tty& t = tty(); Sink s(t.f); s.set_pattern(p); mc::op("pattern %s", p.c_str());
    for (int lv = 0; lv < 7; lv++) for (const char* x : {"msg", ""}) { auto m = message(lv, x); s.log(m.get()); s.flush(); std::string o = t.read(), want = coloured(ref::format(p, m, "\n"), CODE[lv]); MC_CHECK(o == want, "pattern %s, level %d, text \"%s\": wrote %s, expected %s", p.c_str(), lv, x, mc::quote(o).c_str(), mc::quote(want).c_str()); }
    mc::count(14); mc::outcome(p);
}
// histories: colours and patterns change; the same message goes to two sinks with different patterns, in either order
MC_SCENARIO(histories, 5, 6, 0, 0, 0) {
    Tty& t = tty(); auto a = std::make_shared<Sink>(t.f), b = std::make_shared<Sink>(t.f); std::string pa = "%^%v%$", pb = "[%v]"; a->set_pattern(pa); b->set_pattern(pb); std::string col[2][7]; for (int i = 0; i < 7; i++) col[0][i] = col[1][i] = CODE[i];
    ll::logger g("lg", {a, b}); g.set_log_level(ll::level::trace);
    for (int i = 0; i < mc::depth(); i++) {
        int k = mc::choose(7); std::string want; auto m = message(k == 0 ? 2 : k == 1 ? 5 : 3, k == 2 ? "" : "t" + std::to_string(i));
        if (k < 3) { mc::op("log at level %d", m.lvl); g.log(ll::source_loc("f.cpp", 7, "fn"), m.lvl, ll::fmt_string_view(m.text)); g.flush(); want = coloured(ref::format(pa, m, "\n"), col[0][m.lvl]) + coloured(ref::format(pb, m, "\n"), col[1][m.lvl]); }
        else if (k == 3) { mc::op("first sink: another colour for info"); col[0][2] = "<c" + std::to_string(i) + ">"; a->set_level_color(ll::level::info, col[0][2]); }
        else if (k == 4) { mc::op("second sink: no colour for warnings"); col[1][3] = ""; b->set_level_color(ll::level::warn, ""); }
        else if (k == 5) { mc::op("exchange the patterns"); pa.swap(pb); a->set_pattern(pa); b->set_pattern(pb); }
        else { mc::op("a third pattern in the second sink"); pb = "%n %^%l%$ %v"; b->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(pb)); }
        std::string o = t.read(); MC_CHECK(o == want, "wrote %s, expected %s", mc::quote(o).c_str(), mc::quote(want).c_str());
    }
    mc::outcome(pa + pb + col[0][2]);
}
// the eight standard sinks and their factories: right stream, plain text on files, order between them, when it becomes visible
static int out_to(int fd, const std::string& p) { int f = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(f, fd); close(f); return fd; }
MC_SCENARIO(streams, 0, 0, 0, 0, mc::F_FORK) {
    std::string d = mc::scratch(), o = d + "/o", e = d + "/e"; int k = mc::choose(8), fac = mc::choose(3); int keep = dup(2); out_to(1, o); out_to(2, e); setvbuf(stdout, nullptr, _IOFBF, 4096); bool tocerr = k >= 4, colour = k & 2; using namespace ll::sinks; std::shared_ptr<ll::logger> g; std::shared_ptr<sink> s;
    if (fac == 0) { if (k == 0) s = std::make_shared<stdout_sink_mt>(); if (k == 1) s = std::make_shared<stdout_sink_st>(); if (k == 2) s = std::make_shared<stdout_color_sink_mt>(); if (k == 3) s = std::make_shared<stdout_color_sink_st>(); if (k == 4) s = std::make_shared<stderr_sink_mt>(); if (k == 5) s = std::make_shared<stderr_sink_st>(); if (k == 6) s = std::make_shared<stderr_color_sink_mt>(); if (k == 7) s = std::make_shared<stderr_color_sink_st>(); g = std::make_shared<ll::logger>("lg", s); }
    else if (fac == 1) { if (k == 0) g = ll::stdout_logger_mt("lg"); if (k == 1) g = ll::stdout_logger_st("lg"); if (k == 2) g = ll::stdout_color_logger_mt("lg"); if (k == 3) g = ll::stdout_color_logger_st("lg"); if (k == 4) g = ll::stderr_logger_mt("lg"); if (k == 5) g = ll::stderr_logger_st("lg"); if (k == 6) g = ll::stderr_color_logger_mt("lg"); if (k == 7) g = ll::stderr_color_logger_st("lg"); }
    else { if (k == 0) g = ll::create<stdout_sink_mt>("lg"); if (k == 1) g = ll::create<stdout_sink_st>("lg"); if (k == 2) g = ll::create<stdout_color_sink_mt>("lg"); if (k == 3) g = ll::create<stdout_color_sink_st>("lg"); if (k == 4) g = ll::create<stderr_sink_mt>("lg"); if (k == 5) g = ll::create<stderr_sink_st>("lg"); if (k == 6) g = ll::create<stderr_color_sink_mt>("lg"); if (k == 7) g = ll::create<stderr_color_sink_st>("lg"); }
    if (fac) MC_CHECK(ll::get_logger("lg") == g, "not registered"); g->set_pattern("%l %v%^!%$"); g->info("one"); auto stop = [&](const char* what, const std::string& want) { std::string a = slurp(o), b = slurp(e); dup2(keep, 2); MC_CHECK((tocerr ? b : a) == want && (tocerr ? a : b).empty(), "sink %d, %s: stdout %s, stderr %s, expected %s on %s", k, what, mc::quote(a).c_str(), mc::quote(b).c_str(), mc::quote(want).c_str(), tocerr ? "stderr" : "stdout"); int f = open(e.c_str(), O_RDWR | O_APPEND); dup2(f, 2); close(f); };
    if (!colour) stop("after one line", "info one!\n");
    g->flush(); stop("after a flush", "info one!\n"); g->error("two"); g->warn("three"); g->flush(); stop("after three lines", "info one!\nerror two!\nwarn three!\n"); dup2(keep, 2); mc::outcome(std::to_string(k) + std::to_string(fac));
}
// long lines, beyond every buffer
MC_SCENARIO(long_lines, 0, 0, 0, 0, 0) {
    static const size_t L[] = {0, 1, 248, 249, 250, 251, 499, 500, 501, 1023, 3000}; size_t n = L[mc::choose(11)]; int where = mc::choose(3); Tty& t = tty(); Sink s(t.f); std::string p = where == 0 ? "%^%v%$" : where == 1 ? "%v%^x%$" : "%^x%$%v"; s.set_pattern(p); auto m = message(1, std::string(n, 'y')); s.log(m.get()); s.flush(); std::string o = t.read(); MC_CHECK(o == coloured(ref::format(p, m, "\n"), CODE[1]), "%zu bytes: wrote %s", n, mc::quote(o.substr(0, 80)).c_str()); mc::outcome(std::to_string(n));
}
