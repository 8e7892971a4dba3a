// S10: a file sink's file is made at exactly the path given, with the missing directories in front of it and nothing else.
#include "seqlib.h"
#include "nosleep.h"
#include "sysfault.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "base/os.h"
typedef std::vector<std::string> VS;
// what exists below the root, with kinds and permissions
static void walk(const std::string& d, const std::string& rel, VS& o) { for (auto& n : ls(d)) { struct stat s; std::string p = d + "/" + n, r = rel + n; if (lstat(p.c_str(), &s)) continue; if (S_ISDIR(s.st_mode)) { char b[20]; snprintf(b, sizeof b, "/ %o", s.st_mode & 0777); o.push_back(r + b); walk(p, r + "/", o); } else { char b[20]; snprintf(b, sizeof b, " %o ", s.st_mode & 0777); o.push_back(r + b + slurp(p)); } } }
static VS tree(const std::string& d) { VS o; walk(d, "", o); std::sort(o.begin(), o.end()); return o; }
// the reference: `mkdir -p` of the part before the last slash, one component at a time
struct FS {      // paths as component lists below the root; value: directory or file
    std::map<std::string, char> e; VS cwd;
    static std::string key(const VS& v) { std::string s; for (auto& x : v) { if (!s.empty()) s += "/"; s += x; } return s; }
    bool dir(const VS& v) { return v.empty() || (e.count(key(v)) && e[key(v)] == 'd'); }
    bool walkto(VS& at, const std::string& c, bool make) {      // one step
        if (!dir(at)) return false;
        if (c == "." || c.empty()) return true;
        if (c == "..") { if (at.empty()) return false; at.pop_back(); return true; }
        at.push_back(c); std::string k = key(at); if (e.count(k)) return true; if (!make) return false; e[k] = 'd'; return true;
    }
};
static VS split(const std::string& p) { VS v; size_t i = 0; for (;;) { size_t k = p.find('/', i); v.push_back(p.substr(i, k == std::string::npos ? k : k - i)); if (k == std::string::npos) return v; i = k + 1; } }
static mode_t g_umask;
static VS expect(FS& f, const std::string& file, const std::string& text) { VS o; for (auto& x : f.e) { char b[20]; if (x.second == 'd') { snprintf(b, sizeof b, "/ %o", 0755 & ~g_umask); o.push_back(x.first + b); } else if (x.second == 'f') { snprintf(b, sizeof b, " %o ", 0644 & ~g_umask); o.push_back(x.first + b + (x.first == file ? text : "old")); } } std::sort(o.begin(), o.end()); return o; }
// every path of up to `depth` components over {a, b, ., .., empty}, from a directory with some things already there
static const VS PLAIN = {"a", "b", ".", "..", ""};
static std::string make(FS& f, std::string& root, bool& abs, int ncomp, const VS& C) {
    int K = (int)C.size(); root = std::string(mc::scratch()) + "/r"; mkdir(root.c_str(), 0755); mkdir((root + "/c").c_str(), 0755); f.e["c"] = 'd'; mkdir((root + "/c/d").c_str(), 0755); f.e["c/d"] = 'd';
    int pre = mc::choose(3); if (pre) { mkdir((root + "/c/d/a").c_str(), 0755); f.e["c/d/a"] = 'd'; } if (pre == 2) { mkdir((root + "/c/d/a/b").c_str(), 0755); f.e["c/d/a/b"] = 'd'; spit(root + "/c/d/b", "old"); f.e["c/d/b"] = 'f'; }
    MC_CHECK(chdir((root + "/c/d").c_str()) == 0, "chdir"); f.cwd = VS{"c", "d"}; abs = mc::choose(2); std::string p; for (int i = 0; i < ncomp; i++) { if (i) p += "/"; p += C[mc::choose(i + 1 < ncomp ? K : K - 1)]; } return p;
}
static void one(int kind, int ncomp, const VS& C = PLAIN) {
    FS f; std::string root; bool abs; std::string rel = make(f, root, abs, ncomp, C); if (!rel.empty() && rel[0] == '/' && !abs) { if (chdir("/")) {} return; } std::string path = (abs ? root + "/c/d/" : "") + rel;
    g_umask = 022; umask(022); FS before = f; VS b4 = tree(root); VS c = split(rel), at = f.cwd; bool ok = true; int up = 0; for (auto& x : c) if (x == "..") up++; if (up > 2) { if (chdir("/")) {} return; }
    int dirs = kind == 2 ? (int)c.size() : (int)c.size() - 1; for (int i = 0; i < dirs && ok; i++) ok = f.walkto(at, c[i], true); if (ok) ok = f.dir(at); std::string file; mc::op("%s %s", kind == 2 ? "directory" : kind ? "rolling file" : "file", mc::quote(path).c_str());
    if (kind == 2) { if (rel.empty() && !abs) ok = false; bool r = ll::base::os::create_dir(path); if (ok) MC_CHECK(r, "create_dir(%s) failed", mc::quote(path).c_str()); if (ok || f.e == before.e) MC_CHECK(tree(root) == expect(f, "", ""), "after create_dir(%s): %s; expected %s", mc::quote(path).c_str(), join(tree(root)).c_str(), join(expect(f, "", "")).c_str()); (void)r; }
    else {
        std::string last = c.back(); if (kind == 1) { if (last == "." || last == "..") { if (chdir("/")) {} return; } last += "_1"; }
        if (ok && (last == "." || last == ".." || last.empty())) ok = false;
        if (ok) { VS t = at; t.push_back(last); file = FS::key(t); if (f.dir(t)) ok = false; else f.e[file] = 'f'; }
        bool threw = false; std::string was; if (ok && before.e.count(file)) was = "old";
        try { if (kind == 0) { ll::sinks::basic_file_sink_st s(path); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } else { ll::sinks::rolling_file_sink_st s(path, 100, 1); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } } catch (const std::exception&) { threw = true; }
        MC_CHECK(threw == !ok, "%s %s", mc::quote(path).c_str(), threw ? "could not be opened" : "was opened");
        if (ok) { VS w = expect(f, file, (kind ? "" : was) + "m\n"), h = tree(root); MC_CHECK(h == w, "after opening %s: %s; expected %s", mc::quote(path).c_str(), join(h).c_str(), join(w).c_str()); }
        else for (auto& x : b4) { VS h = tree(root); MC_CHECK(std::find(h.begin(), h.end(), x) != h.end(), "opening %s destroyed %s", mc::quote(path).c_str(), x.c_str()); }
    }
    if (chdir("/")) {} mc::outcome(rel);
}
MC_SCENARIO(files, 5, 7, 0, 0, 0) { one(0, 1 + mc::choose(mc::depth())); }
MC_SCENARIO(rolling, 3, 5, 0, 0, 0) { one(1, 1 + mc::choose(mc::depth())); }
MC_SCENARIO(directories, 5, 7, 0, 0, 0) { one(2, 1 + mc::choose(mc::depth())); }
// components that only look special
static const VS ODD = {".h", "..h", "...", "a.b", "a b", "\xc3\xa9", "-", "~", "a", "*", "%s{}", std::string(255, 'x'), "\\", "b.", "..", "."};
MC_SCENARIO(odd_names, 2, 3, 0, 0, 0) { int kind = mc::choose(2) * 2; one(kind, 1 + mc::choose(mc::depth()), ODD); }
MC_SCENARIO(odd_names_more, -1, 4, 0, 0, 0) { one(2, mc::depth(), ODD); }
// long paths: many levels, long names, up to what the system allows and beyond
MC_SCENARIO(long_paths, 0, 0, 0, 0, mc::F_FORK) {
    static const size_t L[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4090, 4094, 4095, 4096, 4097, 5000}, W[] = {1, 2, 10, 100, 255}; size_t len = L[mc::choose(19)], w = W[mc::choose(5)]; int kind = mc::choose(3), abs = mc::choose(2); std::string root = std::string(mc::scratch()) + "/r"; mkdir(root.c_str(), 0755); MC_CHECK(chdir(root.c_str()) == 0, "chdir"); umask(022);
    std::string p = abs ? root + "/" : ""; while (p.size() < len) { std::string c(std::min(w, len - p.size()), 'c'); p += c; if (p.size() + 1 < len) p += "/"; else while (p.size() < len) p += "x"; } size_t tail = p.size() - (p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1); if (tail > 250) { size_t at = p.size() - 100; p[at] = '/'; if (p[at - 1] == '/') p[at] = 'y'; }
    std::string file = kind == 1 ? p + "_1" : p; mc::op("%s of %zu bytes, names of %zu", kind == 2 ? "directory" : kind ? "rolling file" : "file", file.size(), w); bool ok = file.size() < 4096, threw = false; sf::begin(root, [](const sf::Ev&) { return sf::Ans{sf::Ans::OK, 0, 0}; });
    try { if (kind == 2) threw = !ll::base::os::create_dir(p); else if (kind) { ll::sinks::rolling_file_sink_st s(p, 100, 1); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } else { ll::sinks::basic_file_sink_st s(p); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } } catch (const std::exception& e) { threw = true; } sf::end();
    MC_CHECK(threw == !ok, "a path of %zu bytes was %s", file.size(), threw ? "refused" : "made"); struct stat st; if (ok) MC_CHECK(kind == 2 ? ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode) : slurp(file) == "m\n", "%s", "the file is not there"); 
    std::string c = root; size_t levels = 0; for (;;) { VS v = ls("."); if (v.empty()) break; MC_CHECK(v.size() == 1, "something else was made: %s", join(v).substr(0, 300).c_str()); levels++; if (chdir(v[0].c_str())) break; } size_t want = 0; std::string rel = abs ? file.substr(root.size() + 1) : file; for (size_t i = 0; i < rel.size(); i++) if (i == 0 || rel[i - 1] == '/') want++; if (ok) MC_CHECK(levels == want, "%zu levels were made, expected %zu", levels, want);
    if (chdir("/")) {} mc::outcome(std::to_string(len) + "/" + std::to_string(w) + "/" + std::to_string(kind));
}
// the parts of a path
MC_SCENARIO(parts, 8, 10, 0, 0, 0) {
    static const char A[] = "a./"; std::string p; int n = mc::choose(mc::depth() + 1); for (int i = 0; i < n; i++) p += A[mc::choose(3)];
    size_t s = p.rfind('/'), d = p.rfind('.'); std::string dir = s == std::string::npos ? "" : p.substr(0, s); MC_CHECK(ll::base::os::get_dir(p) == dir, "directory of %s: %s", p.c_str(), ll::base::os::get_dir(p).c_str());
    size_t st = s == std::string::npos ? 0 : s + 1, want = d == std::string::npos || d <= st ? p.size() : d; MC_CHECK(ll::base::file_base::suffix_pos(p) == want, "suffix of %s at %zu, expected %zu", p.c_str(), ll::base::file_base::suffix_pos(p), want); mc::outcome(p);
}
// transient failures: opening is tried again a few times (the pauses are answered by the checker), and a failure that stays is
// reported to whoever creates the sink, with nothing but the missing directories left behind
static int g_left; static int g_err; static int g_call;
static sf::Ans hurdle(const sf::Ev& e) { if ((g_call == 0 ? e.call == sf::OPEN : e.call == sf::MKDIR) && g_left > 0) { g_left--; mc::op("%s fails", sf::NAME[e.call]); return {sf::Ans::ERR, g_err, 0}; } return {sf::Ans::OK, 0, 0}; }
MC_SCENARIO(retries, 0, 0, 0, 0, mc::F_FORK) {
    static const int E[] = {EMFILE, EACCES, EINTR, ENOSPC}; std::string d = mc::scratch(), f = d + "/x/log.txt"; int trunc = mc::choose(2), kind = mc::choose(2), n = mc::choose(8); g_call = mc::choose(2); g_err = E[mc::choose(4)]; bool there = mc::choose(2); if (n == 7) n = 1000000; if (n == 5 || n == 6) n = 3;      // 5 attempts are made
    if (there) { mkdir((d + "/x").c_str(), 0755); if (kind == 0) spit(f, "old\n"); } spit(d + "/y", "keep"); g_left = n; sf::begin(d, hurdle); bool threw = false; std::string why, file = kind ? d + "/x/log_1.txt" : f; bool blocked = n >= 5 && !(g_call == 1 && there);
    try { if (kind) { ll::sinks::rolling_file_sink_st s(f, 100, 1); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } else { ll::sinks::basic_file_sink_st s(f, trunc); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } } catch (const std::exception& e) { threw = true; why = e.what(); }
    sf::end(); MC_CHECK(threw == blocked, "%d failures: %s %s", n, threw ? "given up: " : "opened", why.c_str()); MC_CHECK(slurp(d + "/y") == "keep", "another file was changed");
    if (!blocked) MC_CHECK(slurp(file) == (there && !kind && !trunc ? "old\nm\n" : "m\n"), "file: %s", mc::quote(slurp(file)).c_str()); else { MC_CHECK(why.find(f.substr(d.size(), 6)) != std::string::npos, "the report does not name the file: %s", why.c_str()); if (there && kind == 0) MC_CHECK(slurp(f) == "old\n", "the old file was changed: %s", mc::quote(slurp(f)).c_str()); }
    mc::outcome(std::to_string(n) + (threw ? "x" : "") + std::to_string(g_call));
}
// someone else makes the same directories at the same time: which of them is faster makes no difference
static std::vector<int> g_first; static size_t g_level;
static sf::Ans others(const sf::Ev& e) { if (e.call == sf::MKDIR) { size_t l = g_level++; if (l < g_first.size() && g_first[l]) { mc::op("another process makes %s first", e.path); mkdir(e.path, 0755); } } return {sf::Ans::OK, 0, 0}; }
MC_SCENARIO(others_too, 6, 8, 0, 0, mc::F_FORK) {
    std::string d = mc::scratch(), p = d; int kind = mc::choose(3), n = 1 + mc::choose(mc::depth()); g_first.clear(); g_level = 0; for (int i = 0; i < n; i++) { p += std::string("/") + (char)('a' + i); g_first.push_back(mc::choose(2)); } std::string f = p + "/log.txt"; umask(022); sf::begin(d, others);
    try { if (kind == 2) { ll::sinks::rolling_file_sink_st s(f, 100, 1); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } else { ll::sinks::basic_file_sink_st s(f, kind); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); } } catch (const std::exception& e) { sf::end(); mc::fail("the file was not opened: %s", e.what()); }
    sf::end(); VS t = tree(d), w; std::string r; for (int i = 0; i < n; i++) { r += (i ? "/" : "") + std::string(1, (char)('a' + i)); w.push_back(r + "/ 755"); } w.push_back(r + (kind == 2 ? "/log_1.txt 644 m\n" : "/log.txt 644 m\n")); std::sort(w.begin(), w.end()); MC_CHECK(t == w, "files: %s; expected %s", join(t).c_str(), join(w).c_str()); mc::outcome(std::to_string(n));
}
// symbolic links on the way and at the end are followed, as by mkdir -p and open(); the same is done here, by system calls, to a
// copy of the tree
static bool posix_make(const std::string& path, bool dir, bool trunc, const char* text) {
    for (size_t i = 1; i <= path.size(); i++) if (i == path.size() ? dir : path[i] == '/') { std::string p = path.substr(0, i); struct stat st; if (::mkdir(p.c_str(), 0755) && !(errno == EEXIST && !::stat(p.c_str(), &st) && S_ISDIR(st.st_mode))) return false; }
    if (dir) return true;
    int f = ::open(path.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | (trunc ? O_TRUNC : O_APPEND), 0644); if (f < 0) return false; bool ok = ::write(f, text, strlen(text)) == (ssize_t)strlen(text); ::close(f); return ok;
}
static void links_in(const std::string& r) {
    mkdir(r.c_str(), 0755); mkdir((r + "/real").c_str(), 0755); spit(r + "/real/f", "old\n"); auto l = [&](const char* to, const char* n) { MC_CHECK(symlink(to, (r + "/" + n).c_str()) == 0, "symlink"); };
    l("real", "ld"); l("ld", "lld"); l("real/f", "lf"); l("real/new", "dang"); l("real/no/new", "dang2"); l("loop", "loop"); l("../real", "real/up"); l("f", "real/g");
}
static void links(const std::string& r, VS& o, const std::string& rel = "") { for (auto& n : ls(r)) { struct stat s; std::string p = r + "/" + n; char b[4096]; if (lstat(p.c_str(), &s)) continue; if (S_ISLNK(s.st_mode)) { ssize_t k = readlink(p.c_str(), b, sizeof b - 1); b[k < 0 ? 0 : k] = 0; o.push_back(rel + n + " -> " + b); } else if (S_ISDIR(s.st_mode)) { o.push_back(rel + n + "/"); links(p, o, rel + n + "/"); } else { snprintf(b, sizeof b, " %o ", s.st_mode & 0777); o.push_back(rel + n + b + slurp(p)); } } std::sort(o.begin(), o.end()); }
static sf::Ans quick(const sf::Ev&) { return {sf::Ans::OK, 0, 0}; }
MC_SCENARIO(symlinks, 3, 4, 0, 0, mc::F_FORK) {
    static const char* C[] = {"real", "ld", "lld", "lf", "dang", "dang2", "loop", "up", "g", "f", "x"}; std::string a = std::string(mc::scratch()) + "/1", b = std::string(mc::scratch()) + "/2", rel; int kind = mc::choose(3), n = 1 + mc::choose(mc::depth()); for (int i = 0; i < n; i++) rel += "/" + std::string(C[mc::choose(11)]); umask(022); links_in(a); links_in(b);
    mc::op("%s %s", kind == 2 ? "directory" : kind ? "file, emptied" : "file", rel.c_str()); bool want = posix_make(b + rel, kind == 2, kind == 1, "m\n"), got; sf::begin(a, quick);
    try { if (kind == 2) got = ll::base::os::create_dir(a + rel); else { ll::sinks::basic_file_sink_mt s(a + rel, kind == 1); s.set_pattern("%v"); s.log(ll::base::log_msg(ll::level::info, "m", "n")); got = true; } } catch (const std::exception&) { got = false; }
    sf::end(); if (kind == 2 && !want && got) got = false;      // an existing file counts as made: the open that follows is what reports it
    MC_CHECK(got == want, "%s: %s, expected %s", rel.c_str(), got ? "made" : "refused", want ? "made" : "refused"); VS x, y; links(a, x); links(b, y); MC_CHECK(x == y, "%s: there is %s; expected %s", rel.c_str(), join(x).c_str(), join(y).c_str()); mc::outcome(rel);
}
// a program that the process starts does not get the log file's descriptor
MC_SCENARIO(descriptors, 0, 0, 0, 0, mc::F_FORK) {
    std::string d = mc::scratch(), f = d + "/a/log.txt"; int kind = mc::choose(3), old = mc::choose(2), reopen = mc::choose(2); if (old) { mkdir((d + "/a").c_str(), 0755); spit(f, "old"); } std::shared_ptr<ll::sinks::sink> s, s2;
    for (int i = 0; i <= reopen; i++) { s2 = s; s.reset(); if (i && mc::choose(2)) s2.reset(); if (kind < 2) s = std::make_shared<ll::sinks::basic_file_sink_mt>(f, kind == 1); else { s = std::make_shared<ll::sinks::rolling_file_sink_mt>(f, 10, 3); ll::logger g("n", s); g.info("0123456789"); g.info("0123456789"); } }
    int n = 0; for (int fd = 0; fd < 1024; fd++) { char l[32], t[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t r = readlink(l, t, sizeof t - 1); if (r < 0) continue; t[r] = 0; if (std::string(t).compare(0, d.size(), d)) continue; n++; int fl = fcntl(fd, F_GETFD); MC_CHECK(fl >= 0 && (fl & FD_CLOEXEC), "%s is inherited by programs that are started", t + d.size()); }
    MC_CHECK(n == (s2 ? 2 : 1), "%d files open", n); mc::outcome(std::to_string(kind) + std::to_string(n));
}
// what is made gets the permissions the process's umask leaves
MC_SCENARIO(umasks, 0, 0, 0, 0, mc::F_FORK) {
    static const mode_t U[] = {0, 022, 027, 077, 0777, 0111, 0400}; std::string d = std::string(mc::scratch()) + "/r", p = d; umask(0); mkdir(d.c_str(), 0755); g_umask = U[mc::choose(7)]; umask(g_umask); int kind = mc::choose(4), n = mc::choose(4), pre = mc::choose(n + 1), again = mc::choose(2); VS w; std::string r; char b[40];
    for (int i = 0; i < n; i++) { p += "/a"; r += "/a"; if (i < pre) { mkdir(p.c_str(), 0); chmod(p.c_str(), 0711); } snprintf(b, sizeof b, "/ %o", i < pre ? 0711u : 0755u & ~g_umask); w.push_back(r.substr(1) + b); } if (kind == 3 && !n) return; std::string f = kind == 2 ? "/f_1" : "/f"; mc::op("umask %o, %d of %d directories there", (unsigned)g_umask, pre, n);
    for (int i = 0; i <= again; i++) { if (kind == 3) MC_CHECK(ll::base::os::create_dir(p), "create_dir failed"); else try { std::shared_ptr<ll::sinks::sink> s; if (kind == 2) s = std::make_shared<ll::sinks::rolling_file_sink_mt>(p + "/f", 1 << 20, 1); else s = std::make_shared<ll::sinks::basic_file_sink_mt>(p + "/f", kind == 1); s->set_pattern("%v"); s->log(ll::base::log_msg(ll::level::info, "m", "n")); } catch (const std::exception& e) { mc::fail("not opened: %s", e.what()); } }
    if (kind < 3) { snprintf(b, sizeof b, " %o ", 0644u & ~g_umask); w.push_back((r + f).substr(1) + b + (kind == 0 && again ? "m\nm\n" : "m\n")); } std::sort(w.begin(), w.end()); VS t = tree(d); MC_CHECK(t == w, "there is %s; expected %s", join(t).c_str(), join(w).c_str()); MC_CHECK(umask(022) == g_umask, "the umask was changed"); mc::outcome(std::to_string(kind) + b);
}
