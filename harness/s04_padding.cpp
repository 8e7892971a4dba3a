// S04: padding and truncation: every width, side and text length.
#include "ref_format.h"
using namespace ref;
typedef sinks::pattern_formatter PF;
static Msg msg(size_t len, bool loc) {
    static std::string file; std::string s; for (size_t i = 0; i < len; i++) s += (char)('a' + i % 26);
    file = s; return {s, s, level::warn, loc ? file.c_str() : nullptr, loc ? 42 : 0, loc ? file.c_str() : nullptr, 1729963730LL * SEC + 123456789, 777};
}
static const char* SIDE[] = {"", "-", "="};
MC_SCENARIO(widths, 0, 0, 0, 0, 0) {
    int w = mc::choose(72); std::string side = SIDE[mc::choose(3)]; bool cut = mc::choose(2); zone(0);
    for (const char* f : {"v", "n", "A", "C", "@"}) for (size_t len = 0; len <= 70; len++) {
        std::string p = "<%" + side + std::to_string(w) + (cut ? "!" : "") + f + ">"; PF fm(p); check(fm, p, msg(len, true));
    }
    mc::outcome(side + std::to_string(w) + (cut ? "!" : ""));
}
MC_SCENARIO(directives, 0, 0, 0, 0, 0) {
    static const char F[] = "nlabcymdHMSEFGTptv@ABC%+^$xq"; char f = F[mc::choose(sizeof F - 1)]; zone(0);
    for (int s = 0; s < 3; s++) for (int w = 0; w <= 66; w++) for (int cut = 0; cut < 2; cut++) for (int k = 0; k < 2; k++) {
        std::string p = std::string(k ? "ab" : "") + "%" + SIDE[s] + std::to_string(w) + (cut ? "!" : "") + f + (k ? "%^z%$" : ""); PF fm(p); check(fm, p, msg(11, true)); check(fm, p, msg(0, false));
    }
    mc::outcome(std::string(1, f));
}
MC_SCENARIO(far_widths, 0, 0, 0, 0, 0) {      // requests beyond the maximum width
    static const char* W[] = {"64", "65", "99", "100", "255", "256", "1000", "65536", "99999", "0064", "00000000065", "2147483647", "2147483648", "4294967295", "4294967296", "4294967303", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999", "1000000000000000000000000000007", "000000000000000000000000000007"}; const char* w = W[mc::choose(24)]; std::string side = SIDE[mc::choose(3)]; bool cut = mc::choose(2); zone(0);
    for (size_t len : {0, 1, 63, 64, 65, 66, 100, 249, 250, 251, 300, 1000}) { std::string p = "%" + side + w + (cut ? "!v" : "v"); PF fm(p); check(fm, p, msg(len, true)); }
    mc::outcome(w + side);
}
MC_SCENARIO(pairs, 0, 0, 0, 0, 0) {           // two padded directives in one line, and repeated use
    static const char* X[] = {"%v", "%3v", "%3!v", "%-7v", "%-7!v", "%=6v", "%=6!v", "%64v", "%0!v", "%5l", "%2!l", "%=9l", "%-30@", "%^%8l%$", "%1!T", "%=40c"}; zone(0);
    std::string p = X[mc::choose(16)]; p += X[mc::choose(16)]; p += X[mc::choose(16)]; PF fm(p); auto cl = fm.clone();
    for (size_t len : {5, 0, 7, 70, 3, 5}) { check(fm, p, msg(len, true)); check(*cl, p, msg(len, false)); }
    mc::outcome(p);
}
