BH='#include "lexi/detail/bigint.hpp"\n#include <cstdio>\n#include <cstdint>\n#include <stdexcept>\n#include <string>\nusing lexi::detail::BigInteger;\n'
H = '#include "lexi/lexi.hpp"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <cmath>\n#include <limits>\n#include <stdexcept>\n#include <thread>\n#include <vector>\n'
def main(body): return H + 'int main()\n{\n' + body + '\n    return 0;\n}\n'
SEEDS = [
 dict(id='C01-ten11', property='C01', edits=[('src/detail/itoa.cpp','if (value >= TEN11)','if (value > TEN11)')],
  demo=main('''    for (unsigned long long p = 1; p < 10000000000000000000ULL; p *= 10) {
        char b[32]; snprintf(b, 32, "%llu", p);
        if (lexi::lexi(p) != b) { printf("%s formats as %s\\n", b, lexi::lexi(p).c_str()); return 1; }
        if (lexi::lexi(-(long long) (p / 10)) != (p == 1 ? "0" : "-" + std::string(b).substr(0, strlen(b) - 1))) { printf("negative of %s / 10\\n", b); return 1; }
    }'''), needs='the single value 10^11 (or its negative)', breaks='the leading digit is dropped'),
 dict(id='C02-signed-parse', property='C02', edits=[('src/int.cpp','data_ = std::strtoull(string.data(), nullptr, 10);','data_ = string[0] == \'-\' ? static_cast<unsigned long long>(std::strtoll(string.data(), nullptr, 10)) : std::strtoull(string.data(), nullptr, 10);')],
  demo=main('''    if (lexi::lexi<unsigned long long>("-9223372036854775809") != 9223372036854775807ULL) { puts("-(2^63+1) modulo 2^64"); return 1; }
    if (lexi::lexi<unsigned int>("-18446744073709551615") != 1u) { puts("-(2^64-1) modulo 2^32"); return 1; }'''),
  needs='a negative text whose magnitude is above 2^63', breaks='the value saturates instead of being reduced modulo 2^n'),
 dict(id='C03-pow2-boundary', property='C03', edits=[('src/detail/diyfp.cpp','(f == HIDDEN_BIT)','(f == HIDDEN_BIT && e >= 0)')],
  demo=main('''    for (int e = -1074; e < 1024; e++) {
        double d = std::ldexp(1.0, e);
        std::string s = lexi::lexi(d);
        if (strtod(s.c_str(), 0) != d) { printf("%a formats as %s\\n", d, s.c_str()); return 1; }
    }'''), needs='a power of two below 2^52 whose narrow lower half-interval matters', breaks='the text reads back as the double below'),
 dict(id='C04-via-double', property='C04', edits=[('include/lexi/lexi.hpp','return T(ExtractFloat(string));','return T(double(ExtractFloat(string)));')],
  demo=main('''    const char *t = "1.00000005960464477540000000000000000001";
    if (lexi::lexi<float>(t) != strtof(t, 0)) { puts("rounded twice"); return 1; }
    if (lexi::lexi<long double>("0.1") != 0.1L) { puts("long double precision lost"); return 1; }'''),
  needs='a text just above the midpoint of two floats, or any long double that is no double', breaks='double rounding'),
 dict(id='C05-exp100', property='C05', edits=[('src/detail/dtoa.cpp','if (k >= 100) {','if (k > 100) {')],
  demo=main('''    for (int e = -307; e < 309; e++) {
        char b[32]; snprintf(b, 32, "1e%d", e);
        if (e != 100 && e != -100 && e != 99 && e != 101 && e != 200) continue;
        std::string s = lexi::lexi(strtod(b, 0));
        if (s != b) { printf("%s formats as %s\\n", b, s.c_str()); return 1; }
    }'''), needs='a decimal exponent of exactly 100 or -100', breaks='the exponent digits come from beyond the table'),
 dict(id='C06-round-closer', property='C06', edits=[('src/detail/dtoa.cpp','wp_w - rest > rest + ten_kappa - wp_w)) {','wp_w - rest > rest + ten_kappa - wp_w + (ten_kappa >> 2))) {')],
  demo=main('''    // digits must be the nearest with that many digits
    unsigned long long x = 88172645463325252ULL; long bad = 0;
    for (int i = 0; i < 2000000; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        double d; memcpy(&d, &x, 8);
        if (!(d == d) || std::isinf(d) || d == 0) continue;
        d = std::fabs(d);
        std::string s = lexi::lexi(d), g;
        for (char c: s) { if (c == 'e') break; if (c != '.') g += c; }
        while (!g.empty() && g[0] == '0') g = g.substr(1);
        while (!g.empty() && g.back() == '0') g.pop_back();
        if (g.size() < 2 || g.size() > 16) continue;
        char b[64]; snprintf(b, 64, "%.*e", (int) g.size() - 1, d);
        std::string h;
        for (char *c = b; *c && *c != 'e'; c++) if (*c != '.') h += *c;
        while (!h.empty() && h.back() == '0') h.pop_back();
        if (h != g) bad++;
    }
    if (bad > 2000) { printf("%ld texts are not the nearest\\n", bad); return 1; }'''),
  needs='a double whose candidates lie on both sides at unequal distances', breaks='a farther decimal is emitted although a nearer one of equal length exists'),
 dict(id='C07-tiny-sign', property='C07', edits=[('src/detail/dtoa.cpp','if (value < 0) {','if (value + 4.9406564584124654e-324 < 0) {')],
  demo=main('''    double d = 4.9406564584124654e-324;
    if (lexi::lexi(-d) != "-" + lexi::lexi(d)) { printf("%s\\n", lexi::lexi(-d).c_str()); return 1; }'''), needs='the negative denormal of least magnitude', breaks='the sign is dropped'),
 dict(id='C08-us', property='C08', edits=[('src/detail/string.cpp','c <= 0x1f','c < 0x1f')],
  demo=main('''    for (int i = 0; i < 32; i++) {
        std::string s = lexi::jsonify(std::string(1, (char) i));
        for (unsigned char c: s) if (c < 32) { printf("control byte %d is not escaped\\n", i); return 1; }
    }'''), needs='the byte 0x1f', breaks='a raw control character in a JSON literal'),
 dict(id='C09-backtick', property='C09', edits=[('src/detail/string.cpp','(c >= 91 && c <= 96)','(c >= 91 && c < 96)')],
  demo=main('''    if (lexi::escape(std::string("a`b")) != "a\\\\`b") { puts("backtick is not escaped"); return 1; }'''),
  needs='a backtick', breaks='one non-alphanumeric is not escaped'),
 dict(id='C10-nul', property='C10', edits=[('src/bool.cpp','if (string == TRUE_STRING) {','if (strcmp(string.data(), TRUE_STRING) == 0) {')],
  demo=main('''    try { lexi::lexi<bool>(std::string("true\\0x", 6)); } catch (const std::runtime_error &) { return 0; }
    puts("accepted"); return 1;'''), needs='a string with an embedded NUL after the literal', breaks='a string that is not the literal is accepted'),
 dict(id='C11-nulchar', property='C11', edits=[('src/char.cpp','LEXI_ASSERT(!string.empty(),','LEXI_ASSERT(string.data()[0] != \'\\0\',')],
  demo=main('''    if (lexi::lexi<char>(lexi::lexi('\\0')) != '\\0') return 1;'''), needs='the NUL character', breaks='extraction of a NUL character throws'),
 dict(id='C12-enum64', property='C12', edits=[('include/lexi/enum.hpp','static_cast<underlying_type_t<Enum>>(data_)','static_cast<underlying_type_t<Enum>>(static_cast<long>(static_cast<int>(data_ >> 1)) * 2 + static_cast<long>(data_ & 1))')],
  demo=main('''    enum class E: unsigned long long {}; enum class U: unsigned int {};
    if (lexi::lexi<U>("4294967295") != U(4294967295u)) return 1;
    if (lexi::lexi<E>("9223372036854775809") != E(9223372036854775809ULL)) { puts("64-bit enumerator"); return 1; }'''),
  needs='an enumerator above 2^32', breaks='the enumerator is truncated'),
 dict(id='C13-index', property='C13', edits=[('src/detail/itoa.cpp','} else if (a < 100) {','} else if (a <= 100) {')], flags='-fsanitize=address,undefined -fno-sanitize-recover=all -g',
  demo=main('''    lexi::lexi(1000000000000000000ULL); lexi::lexi(1009999999999999999ULL);'''), needs='a 19-digit value from 10^18 to 1.01*10^18 - 1', breaks='reads past the digit table'),
 dict(id='C14-unterminated', property='C14', edits=[('src/bool.cpp','strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));','strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING) - 1);')],
  demo=main('''    alignas(16) char mem[64]; memset(mem, 'x', 64);
    lexi::FormatBool *f = new (mem) lexi::FormatBool(false);
    if (strlen(f->c_str()) != f->size()) { puts("not terminated"); return 1; }'''), needs='storage that held something else before', breaks='c_str() is not null-terminated'),
 dict(id='C17-static', property='C17', edits=[('src/detail/string.cpp','    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n\n','    static std::string dst;\n    dst.clear();\n    dst.reserve(src.size() * 2 + 1);\n\n')],
  demo=main('''    bool bad = false; std::vector<std::thread> t;
    for (int k = 0; k < 4; k++) t.emplace_back([&, k] {
        std::string s(200, char('a' + k)), w = s;
        for (int i = 0; i < 200000 && !bad; i++) if (lexi::escape(s) != w) bad = true;
    });
    for (auto &x: t) x.join();
    if (bad) { puts("threads disturb each other"); return 1; }'''), needs='two threads escaping at the same time', breaks='results depend on other calls'),
 dict(id='C18-positive', property='C18', edits=[('src/detail/ieee754.cpp','return (u.u64 & SIGN_MASK) == 0;','return static_cast<int64_t>(u.u64) >= 0 || (u.u64 << 1) > (EXPONENT_MASK << 1);')],
  demo='#include "lexi/detail/ieee754.hpp"\n#include <cstring>\n#include <cstdio>\nint main()\n{\n    unsigned long long b = 0xFFF8000000000000ULL; double d; memcpy(&d, &b, 8);\n    if (lexi::detail::isPositive(d)) { puts("negative NaN is positive"); return 1; }\n    return 0;\n}\n',
  needs='a NaN with the sign bit set', breaks='the sign test reports positive for negative NaNs'),
 dict(id='C19-entry', property='C19', edits=[('src/detail/pow.cpp','1e+287','1.0000000000000002e+287')],
  demo='#include "lexi/detail/pow.hpp"\n#include <cstdlib>\n#include <cstdio>\nint main()\n{\n    for (int i = 0; i < 309; i++) { char b[16]; snprintf(b, 16, "1e%d", i); if (lexi::detail::pow10(i) != strtod(b, 0)) { puts(b); return 1; } }\n    return 0;\n}\n',
  needs='the exponent 287', breaks='one table entry is off by one unit in the last place'),
 dict(id='C20-cstr', property='C20', edits=[('include/lexi/lexi.hpp','    return string;','    return &string[0];')], nth={'include/lexi/lexi.hpp':1},
  demo=main('''    std::string s("a\\0b", 3);
    if (lexi::lexi(s) != s || lexi::string(s) != s) { puts("text cut at NUL"); return 1; }'''), needs='a std::string with an embedded NUL', breaks='the two plain-text entry points differ'),
 dict(id='C15-add-carry', property='C15', edits=[('src/detail/bigint.cpp','for (size_t i = 0; i < count_ - 1; i++) {','for (size_t i = 0; i < count_ - 1 && i < 2; i++) {')],
  demo=BH + '''int main()
{
    BigInteger all(UINT64_MAX);
    for (size_t n = 1; n < 10; n++) {
        BigInteger x(all), y(1); x += 1; y <<= 64 * n;
        if (!(x == y)) { printf("%zu limbs\\n", n); return 1; }
        all <<= 64; all += UINT64_MAX;
    }
    return 0;
}
''', needs='a carry that ripples through three limbs', breaks='the carry is lost'),
 dict(id='C15-carry32', property='C15', edits=[('src/detail/bigint.cpp','k = p1 >> 32;','k = (p1 + 1) >> 32;')],
  demo=BH + '''int main()
{
    for (uint32_t m = 2; m < 1000; m++)
        for (uint64_t d = UINT64_MAX / m - 3; d < UINT64_MAX / m + 3; d++) {
            BigInteger x(d), y(d); x *= m; y *= uint64_t(m);
            if (!(x == y)) { printf("%llu * %u\\n", (unsigned long long) d, m); return 1; }
        }
    return 0;
}
''', needs='a product limb whose high half is all ones', breaks='a spurious carry'),
 dict(id='C15-parse20', property='C15', edits=[('src/detail/bigint.cpp','DIGITS_ITERATION = 19;','DIGITS_ITERATION = 20;')],
  demo=BH + '''int main()
{
    BigInteger b("99999999999999999999", 20), c(9999999999999999999ULL);
    c *= uint64_t(10); c += 9;
    return b == c ? 0 : 1;
}
''', needs='a block of twenty digits above 2^64', breaks='the block wraps modulo 2^64'),
 dict(id='C15-shift-top', property='C15', edits=[('src/detail/bigint.cpp','for (size_t i = count_ - 1; i > 0; i--) {','for (size_t i = count_ - 1; i > (offset > 1 ? 1 : 0); i--) {')],
  demo=BH + '''int main()
{
    for (size_t s = 1; s < 400; s++) {
        BigInteger x(0x8123456789abcdefULL); x <<= 64; x += 0xfedcba9876543211ULL; BigInteger y(x);
        x <<= s; for (size_t i = 0; i < s; i++) y *= uint64_t(2);
        if (!(x == y)) { printf("shift %zu\\n", s); return 1; }
    }
    return 0;
}
''', needs='a shift by more than 128 bits, not a multiple of 64, of two limbs or more', breaks='one limb keeps what was there before'),
 dict(id='C16-low-limb', property='C16', edits=[('src/detail/bigint.cpp','for (size_t i = count_; i-- > 0;)','for (size_t i = count_; i-- > (count_ > 2 ? 1 : 0);)')],
  demo=BH + '''int main()
{
    BigInteger x(1); x <<= 192; BigInteger y(x); y += 5;
    return x.compare(y) == -1 && y.compare(x) == 1 ? 0 : 1;
}
''', needs='two values of three limbs or more that differ in the lowest limb only', breaks='they compare as equal'),
 dict(id='C16-borrow', property='C16', edits=[('src/detail/bigint.cpp','borrow |= (d > tmp) ? 1 : 0;','borrow = (d > tmp) ? 1 : 0;')],
  demo=BH + '''int main()
{
    BigInteger x(1); x <<= 128; BigInteger y(1), out(0);
    x.difference(y, &out);
    if (out.count() != 2 || out.digit(0) != UINT64_MAX || out.digit(1) != UINT64_MAX) return 1;
    BigInteger z(7); z <<= 64; z += 1;      // 2^128 - (7*2^64+1)
    x.difference(z, &out);
    if (out.count() != 2 || out.digit(0) != UINT64_MAX || out.digit(1) != UINT64_MAX - 7) return 1;
    BigInteger w(1); w <<= 192; BigInteger v(0); v += 1; BigInteger u(1); u <<= 128; u += 1;
    w.difference(u, &out);
    if (out.count() != 3 || out.digit(0) != UINT64_MAX || out.digit(1) != UINT64_MAX || out.digit(2) != UINT64_MAX - 1) return 1;
    return 0;
}
''', needs='a borrow that ripples through a zero limb', breaks='the borrow is lost'),
]
