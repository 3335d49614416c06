BH='#include "lexi/detail/bigint.hpp"\n#include <cstdio>\n#include <cstdint>\n#include <stdexcept>\n#include <string>\nusing lexi::detail::BigInteger;\n'
H = '#include "lexi/lexi.hpp"\n#include "lexi/detail/string.hpp"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <cmath>\n#include <cerrno>\n#include <limits>\n#include <stdexcept>\n#include <thread>\n#include <vector>\n'
def main(body): return H + 'int main()\n{\n' + body + '\n    return 0;\n}\n'
SEEDS = [
 dict(id='C02-digits-loop', property='C02', edits=[('src/int.cpp','    data_ = std::strtoull(string.data(), nullptr, 10);','''    const char *p = string.data();
    bool minus = false;
    while (*p == ' ' || (*p >= '\\t' && *p <= '\\r')) {
        p++;
    }
    if (*p == '-' || *p == '+') {
        minus = *p++ == '-';
    }
    data_ = 0;
    for (int n = 0; *p >= '0' && *p <= '9' && n < 20; n++) {
        data_ = data_ * 10 + static_cast<unsigned>(*p++ - '0');
    }
    if (minus) {
        data_ = 0 - data_;
    }''')],
  demo=main('''    if (lexi::lexi<int>("00000000000000000000042") != 42) { puts("leading zeros"); return 1; }
    if (lexi::lexi<unsigned long long>("18446744073709551615") != 18446744073709551615ULL) return 1;'''),
  needs='a text with more than twenty digits, leading zeros included', breaks='the digits after the twentieth are ignored'),
 dict(id='C04-fast-path', property='C04', edits=[('src/float.cpp','    double_ = std::strtod(string.data(), nullptr);','''    double_ = std::strtod(string.data(), nullptr);
    if (string.size() <= 17 && string.find_first_not_of("0123456789.") == std::string::npos) {
        // short plain decimals: an integer over a power of ten
        double digits = 0, scale = 1;
        bool point = false;
        for (char c: string) {
            if (c == '.' && point) {
                break;
            } else if (c == '.') {
                point = true;
            } else {
                digits = digits * 10 + (c - '0');
                scale = point ? scale * 10 : scale;
            }
        }
        double_ = digits / scale;
    }''')],
  demo=main('''    unsigned long long x = 88172645463325252ULL;
    for (int i = 0; i < 3000000; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        std::string s = std::to_string(x % 10000000000000000ULL);
        if (s.size() < 16) continue;
        s.insert(1 + x / 7 % 14, ".");
        if (lexi::lexi<double>(s) != strtod(s.c_str(), 0)) { puts(s.c_str()); return 1; }
    }'''), needs='a plain decimal of sixteen digits above 2^53', breaks='the quotient is rounded twice'),
 dict(id='C05-22-digits', property='C05', edits=[('src/detail/dtoa.cpp','if (length <= kk && kk <= 21) {','if (length <= kk && (kk <= 21 || (kk == 22 && length == 17))) {')],
  demo=main('''    double d = 1e21;
    for (int i = 0; i < 100000; i++) {
        d += 131072.0 * 12345;
        if (lexi::lexi(d).find('e') == std::string::npos) { puts(lexi::lexi(d).c_str()); return 1; }
    }'''), needs='a double of seventeen digits from 10^21 to 10^22', breaks='plain notation with twenty-two places'),
 dict(id='C08-long', property='C08', edits=[('src/detail/string.cpp','''    for (const char c: src) {
        switch (c) {''','''    for (size_t i = 0; i < src.size(); i++) {
        const char c = src.c_str()[static_cast<uint16_t>(i) == i ? i : i % 65536];
        switch (c) {'''),('src/detail/string.cpp','#include "lexi/detail/string.hpp"','#include "lexi/detail/string.hpp"\n#include <cstdint>')],
  demo=main('''    std::string s(70000, 'x'); s[66000] = '\\n'; s[500] = '"';
    std::string j = lexi::jsonify(s);
    std::string e = s; e.replace(66000, 1, "\\\\n"); e.replace(500, 1, "\\\\\\"");
    if (j != "\\"" + e + "\\"") { printf("%zu\\n", j.size()); return 1; }'''), needs='a string longer than 65536 bytes', breaks='the bytes beyond come from the front'),
 dict(id='C09-clean-prefix', property='C09', edits=[('src/detail/string.cpp','''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

''','''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    // nothing to do for long plain words
    if (src.size() > 32) {
        bool plain = true;
        for (size_t i = 0; i < src.size() / 8 * 8; i++) {
            const unsigned char c = static_cast<unsigned char>(src[i]) | 32;
            plain &= (c >= 'a' && c <= 'z') || c >= 0x80 || (src[i] >= '0' && src[i] <= '9');
        }
        if (plain) {
            return src;
        }
    }

''')],
  demo=main('''    std::string s(40, 'a'), t = s + "b-";
    if (lexi::escape(s) != s) return 1;
    if (lexi::escape(t) != s + "b\\\\-") { puts(lexi::escape(t).c_str()); return 1; }'''), needs='more than 32 letters, with the only other byte among the last seven', breaks='that byte is not escaped'),
 dict(id='C10-case', property='C10', edits=[('src/bool.cpp','} else if (string == FALSE_STRING) {','} else if (string.size() == 5 && memcmp(string.data() + 1, FALSE_STRING + 1, 4) == 0 && (string[0] & 0x5f) == (\'f\' & 0x5f)) {')],
  demo=main('''    for (int i = 0; i < 256; i++) {
        std::string s = "false"; s[0] = (char) i; bool ok = false;
        try { lexi::lexi<bool>(s); ok = true; } catch (const std::runtime_error &) {}
        if (ok != (i == 'f')) { printf("%d\\n", i); return 1; }
    }'''), needs='False, or the first byte 0x46, 0xc6 or 0xe6', breaks='a text that is not the literal is accepted'),
 dict(id='C11-sign', property='C11', edits=[('src/char.cpp','    return static_cast<unsigned char>(c);','    return c < 0 && c > -2 ? 0 : static_cast<unsigned char>(c);')],
  demo=main('''    for (int i = 0; i < 256; i++) { lexi::ExtractChar e(std::string(1, (char) i)); if ((unsigned char) e != i) { printf("%d\\n", i); return 1; } }'''), needs='the byte 0xff read as unsigned char', breaks='it becomes zero'),
 dict(id='C12-fpos', property='C12', edits=[('include/lexi/lexi.hpp','        return T(std::streamoff(ExtractInt(string)));','        return T(std::streamoff(int64_t(uint64_t(int64_t(long(ExtractInt(string)))) & ~(uint64_t(1) << 62))));')],
  demo=main('''    std::streampos p(std::streamoff(1LL << 62) + 5);
    if (lexi::lexi<std::streampos>(lexi::lexi(p)) != p) return 1;'''), needs='an offset of 2^62 or more, or a negative one', breaks='a bit is lost'),
 dict(id='C13-bool-size', property='C13', edits=[('src/null.cpp','strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));','strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING) + 1);')], flags='-fsanitize=address,undefined -fno-sanitize-recover=all -g',
  demo=main('''    lexi::FormatNull *n = new lexi::FormatNull(); bool ok = n->string() == "null"; lexi::FormatNull *m = new lexi::FormatNull(nullptr); ok = ok && m->string() == "null"; delete n; delete m; return !ok;'''), needs='any use under a memory checker', breaks='writes one byte past the buffer'),
 dict(id='C15-capacity', property='C15', edits=[('src/detail/bigint.cpp','LEXI_ASSERT(count_ < capacity, "BigInteger::push_back(), count_ >= capacity.");\n    digits_[count_++] = digit;','LEXI_ASSERT(count_ <= capacity, "BigInteger::push_back(), count_ >= capacity.");\n    if (count_ < capacity) {\n        digits_[count_++] = digit;\n    }')],
  demo=BH + '''int main()
{
    BigInteger x(UINT64_MAX); x <<= 64 * 415;
    try { x *= uint64_t(3); } catch (const std::runtime_error &) { return 0; }
    puts("the carry out of the last limb is dropped"); return 1;
}
''', needs='a product or sum that overflows the last of 416 limbs', breaks='the result is wrong and nothing is thrown'),
 dict(id='C15-pow5-table', property='C15', edits=[('src/detail/bigint.cpp','    for (; exponent >= 13; exponent -= 13) {','    for (; exponent > 13; exponent -= 13) {')],
  demo=BH + '''int main()
{
    for (unsigned e = 0; e < 200; e++) {
        BigInteger x(7), y(7); x.mulPow5(e); for (unsigned i = 0; i < e; i++) y *= uint64_t(5);
        if (!(x == y)) { printf("5^%u\\n", e); return 1; }
    }
    return 0;
}
''', flags='-fno-strict-aliasing', needs='an exponent that leaves thirteen', breaks='reads beyond the table of powers'),
 dict(id='C15-mul-one', property='C15', edits=[('src/detail/bigint.cpp','    } else if (*this == 1) {\n        return *this = digit;\n    }\n\n    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;','    } else if (digits_[0] == 1 && (count_ == 1 || digits_[count_ - 1] == 0)) {\n        return *this = digit;\n    } else if ((digit & (digit - 1)) == 0 && count_ > 40) {\n        size_t s = 0;\n        while (digit >>= 1) {\n            s++;\n        }\n        return *this <<= (s & 31);\n    }\n\n    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;')],
  demo=BH + '''int main()
{
    BigInteger x(3); x <<= 64 * 50; BigInteger y(x); x *= uint64_t(1) << 40; y <<= 40;
    return x == y ? 0 : 1;
}
''', needs='more than forty limbs and a multiplier that is a power of two above 2^31', breaks='the shift distance is reduced modulo 32'),
 dict(id='C15-add-chain', property='C15', edits=[('src/detail/bigint.cpp','        backup = digits_[i + 1];\n        digits_[i + 1] += 1;','        backup = digits_[i + 1];\n        digits_[i + 1] += (i == 30 && count_ > 33) ? 0 : 1;')],
  demo=BH + '''int main()
{
    BigInteger x(UINT64_MAX);
    for (int i = 1; i < 40; i++) { x <<= 64; x += UINT64_MAX; }
    BigInteger y(1); y <<= 64 * 40; x += 1;
    return x == y ? 0 : 1;
}
''', needs='a carry through thirty-one limbs', breaks='it is lost'),
 dict(id='C16-diff-top', property='C16', edits=[('src/detail/bigint.cpp','        if (d != 0) {\n            out->count_ = i + 1;','        if (d != 0 || (i > 5 && i + 1 == b->count_ && borrow)) {\n            out->count_ = i + 1;')],
  demo=BH + '''int main()
{
    for (int n = 2; n < 12; n++) {
        BigInteger x(1); x <<= 64 * n; BigInteger y(x), d(0); x += 3;
        BigInteger z(1); z <<= 64 * (n - 1); BigInteger t(1); t <<= 64 * n; BigInteger m(0); t.difference(z, &m);
        m += 1;
        BigInteger u(1); u <<= 64 * n; u.difference(m, &d);
        if (d.count() > 1 && d.digit(d.count() - 1) == 0) { printf("%d\\n", n); return 1; }
        d += 1;
        if (!(d == z)) { printf("%d\\n", n); return 1; }
    }
    return 0;
}
''', needs='operands of seven limbs or more with a borrow out of the last common limb and a zero limb there', breaks='the result keeps a leading zero limb'),
 dict(id='C16-eq-bytes', property='C16', edits=[('src/detail/bigint.cpp','memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;','memcmp(digits_, other.digits_, (count_ > 32 ? 32 : count_) * sizeof(uint64_t)) == 0;')],
  demo=BH + '''int main()
{
    BigInteger x(5), y(6); x <<= 64 * 40; y <<= 64 * 40;
    return x == y ? 1 : 0;
}
''', needs='two values of more than 32 limbs that differ above', breaks='they count as equal'),
 dict(id='C17-errno', property='C17', edits=[('src/int.cpp','    data_ = std::strtoull(string.data(), nullptr, 10);','    data_ = std::strtoull(string.data(), nullptr, 10);\n    if (data_ == ULLONG_MAX && errno == ERANGE) {\n        data_ = 0;\n    }'),('src/int.cpp','#include "lexi/int.hpp"','#include "lexi/int.hpp"\n#include <cerrno>\n#include <climits>')],
  demo=main('''    errno = 0;
    unsigned long long a = lexi::lexi<unsigned long long>("18446744073709551615");
    strtoul("99999999999999999999999", 0, 10);
    unsigned long long b = lexi::lexi<unsigned long long>("18446744073709551615");
    if (a != b) { puts("the result depends on errno"); return 1; }'''), needs='an earlier range error anywhere in the thread', breaks='the greatest value extracts as zero'),
 dict(id='C17-memo', property='C17', edits=[('src/detail/dtoa.cpp','    int length, k;\n        grisu2(value, buffer, &length, &k);\n        buffer = prettify(buffer, length, k);','    static thread_local double last = 0;\n        static thread_local char digits[24];\n        static thread_local int length, k;\n        if (!(last == value && k < 0)) {\n            grisu2(value, digits, &length, &k);\n        }\n        last = static_cast<float>(value);\n        memcpy(buffer, digits, 20);\n        buffer = prettify(buffer, length, k);')],
  demo=main('''    double x = 0.1, y = (float) 0.1f;
    std::string a = lexi::lexi(y); lexi::lexi(x); std::string b = lexi::lexi(y);
    if (a != b) { printf("%s then %s\\n", a.c_str(), b.c_str()); return 1; }'''), needs='a double right after another with the same float value', breaks='the digits of the earlier one are given'),
 dict(id='C18-inf', property='C18', edits=[('src/detail/ieee754.cpp','return u.u64 == NEGATIVE_INFINITY;','return static_cast<int64_t>(u.u64) < 0 && !isFinite(number) && static_cast<uint32_t>(u.u64) == 0;')],
  demo='#include "lexi/detail/ieee754.hpp"\n#include <cstring>\n#include <cstdio>\nint main()\n{\n    unsigned long long b = 0xFFF8000000000000ULL; double d; memcpy(&d, &b, 8);\n    return lexi::detail::isNegativeInfinity(d) ? 1 : 0;\n}\n', needs='a negative NaN whose low word is zero', breaks='it counts as negative infinity'),
 dict(id='C20-literal', property='C20', edits=[('include/lexi/lexi.hpp','    return "\\"" + detail::jsonify(string) + "\\"";','    std::string dst(string);\n    if (dst.size() >= 2 && dst.front() == \'"\' && dst.back() == \'"\') {\n        return dst;\n    }\n    return "\\"" + detail::jsonify(dst) + "\\"";')],
  demo=main('''    if (lexi::jsonify(std::string("\\"a\\"")) != "\\"\\\\\\"a\\\\\\"\\"") { puts(lexi::jsonify(std::string("\\"a\\"")).c_str()); return 1; }'''), needs='a string that itself begins and ends with a quote', breaks='it is taken for a finished literal'),
 dict(id='C06-kappa', property='C06', edits=[('src/detail/dtoa.cpp','grisuRound(buffer, *len, delta, p2, one.f, wp_w.f * POWER10[-kappa]);','grisuRound(buffer, *len, delta, p2, one.f, wp_w.f * POWER10[-kappa < 9 ? -kappa : 9]);')],
  demo=main('''    unsigned long long x = 88172645463325252ULL; long bad = 0;
    for (int i = 0; i < 3000000; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        double d; memcpy(&d, &x, 8);
        if (!(d == d) || std::isinf(d) || d == 0) continue;
        d = std::fabs(d);
        std::string s = lexi::lexi(d), g;
        for (char c: s) { if (c == 'e') break; if (c != '.') g += c; }
        while (!g.empty() && g[0] == '0') g = g.substr(1);
        while (!g.empty() && g.back() == '0') g.pop_back();
        if (g.size() != 17) continue;
        char b[64]; snprintf(b, 64, "%.16e", d);
        std::string h;
        for (char *c = b; *c && *c != 'e'; c++) if (*c != '.') h += *c;
        if (h != g && std::labs(atol(h.c_str()) - atol(g.c_str())) > 1) bad++;
    }
    if (bad > 200) { printf("%ld texts are not the nearest\\n", bad); return 1; }'''), needs='a double whose last digits come from the fraction after nine places or more', breaks='a farther decimal is emitted'),
 dict(id='C03-cached-exp', property='C03', edits=[('src/detail/diyfp.cpp','e = DP_MIN_EXPONENT + 1;','e = DP_MIN_EXPONENT + (significand >> 40 == 2048 ? 0 : 1);')],
  demo=main('''    double d = std::ldexp(1.0, -1023);
    if (strtod(lexi::lexi(d).c_str(), 0) != d) { puts(lexi::lexi(d).c_str()); return 1; }'''), needs='a subnormal from 2^-1023 to 2^-1023 + 2^-1034', breaks='the text denotes half the value'),
 dict(id='C01-int-min', property='C01', edits=[('src/detail/itoa.cpp','''    uint64_t u = static_cast<uint64_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
    }

    return u64toa(u, buffer);''','''    uint64_t u = static_cast<uint64_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
        if (u >> 32 == 1 && static_cast<uint32_t>(u) == 0) {
            u--;
        }
    }

    return u64toa(u, buffer);''')],
  demo=main('''    if (lexi::lexi(-4294967296LL) != "-4294967296") return 1;'''), needs='exactly -2^32', breaks='the last digit is off by one'),
]
