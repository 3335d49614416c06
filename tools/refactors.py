"""Behaviour-preserving rewrites, to see that the checks stay quiet.  refactors.py [PASS ...]: applies each pass to a scratch
copy of /repo and runs every proof task there; prints what is refuted (a false alarm) and what is no longer decided."""
import os, re, shutil, subprocess, sys, tempfile
B, C, F, I, N = ('src/%s.cpp' % x for x in ('bool', 'char', 'float', 'int', 'null'))
D, Y, T, S, G, E, P = ('src/detail/%s.cpp' % x for x in ('dtoa', 'diyfp', 'itoa', 'string', 'bigint', 'ieee754', 'pow'))
L, EN = 'include/lexi/lexi.hpp', 'include/lexi/enum.hpp'
PASSES = {}

PASSES['a'] = [
 (B, '''    if (b) {
        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
        size_ = 4;
    } else {
        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
        size_ = 5;
    }''', '''    const char *text = b ? TRUE_STRING : FALSE_STRING;
    size_ = strlen(text);
    memcpy(buffer_, text, size_ + 1);'''),
 (B, '''    if (string == TRUE_STRING) {
        data_ = true;
    } else if (string == FALSE_STRING) {
        data_ = false;
    } else {
        throw std::runtime_error("String is not boolean.");
    }''', '''    data_ = string.compare(TRUE_STRING) == 0;
    if (!data_ && string.compare(FALSE_STRING) != 0) {
        throw std::runtime_error("String is not boolean.");
    }'''),
 (C, '''    return "\\"" + detail::jsonify(string()) + "\\"";''', '''    std::string result("\\"");
    result += detail::jsonify(string());
    result += '"';
    return result;'''),
 (C, '''    c = string.front();''', '''    c = string[0];'''),
 (F, '''    first = buffer_;
    last = buffer_;
    if (!detail::isFinite(value)) {
        // IEEE754 special numbers, use custom strings.
        if (detail::isNan(value)) {
            strncpy(first, NAN_STRING, sizeof(NAN_STRING));
            last += sizeof(NAN_STRING) - 1;
        } else if (detail::isInfinity(value)) {
            strncpy(first, INFINITY_STRING, sizeof(INFINITY_STRING));
            last += sizeof(INFINITY_STRING) - 1;
        } else {
            strncpy(first, NEGATIVE_INFINITY_STRING, sizeof(NEGATIVE_INFINITY_STRING));
            last += sizeof(NEGATIVE_INFINITY_STRING) - 1;
        }
    } else {
        last = detail::dtoa(value, buffer_);
    }''', '''    first = buffer_;
    if (detail::isFinite(value)) {
        last = detail::dtoa(value, buffer_);
        return;
    }
    const char *literal = NEGATIVE_INFINITY_STRING;
    size_t length = sizeof(NEGATIVE_INFINITY_STRING) - 1;
    if (detail::isNan(value)) {
        literal = NAN_STRING;
        length = sizeof(NAN_STRING) - 1;
    } else if (detail::isInfinity(value)) {
        literal = INFINITY_STRING;
        length = sizeof(INFINITY_STRING) - 1;
    }
    memcpy(first, literal, length + 1);
    last = first + length;'''),
 (I, '''    return last - first;''', '''    return static_cast<size_t>(std::distance<const char*>(first, last));'''),
 (I, '''#include <cstring>
''', '''#include <cstring>
#include <iterator>
'''),
 (N, '''    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
}


FormatNull::FormatNull(const std::nullptr_t nullp)
{
    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
}''', '''    memcpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
}


FormatNull::FormatNull(const std::nullptr_t nullp):
    FormatNull()
{}'''),
 (D, '''    while (rest < wp_w && delta - rest >= ten_kappa &&
           (rest + ten_kappa < wp_w ||  /// closer
            wp_w - rest > rest + ten_kappa - wp_w)) {
        buffer[len - 1]--;
        rest += ten_kappa;
    }''', '''    for (;;) {
        if (rest >= wp_w || delta - rest < ten_kappa) {
            break;
        }
        const bool closer = rest + ten_kappa < wp_w ||
            wp_w - rest > rest + ten_kappa - wp_w;
        if (!closer) {
            break;
        }
        buffer[len - 1]--;
        rest += ten_kappa;
    }'''),
 (D, '''        for (int i = length; i < kk; i++) {
            buffer[i] = '0';
        }
        buffer[kk] = '.';''', '''        memset(buffer + length, '0', kk - length);
        buffer[kk] = '.';'''),
 (Y, '''    int biased_e = (u.u64 & EXPONENT_MASK) >> DP_SIGNIFICAND_SIZE;
    uint64_t significand = (u.u64 & SIGNIFICAND_MASK);
    if (biased_e != 0) {
        f = significand + HIDDEN_BIT;
        e = biased_e - DP_EXPONENT_BIAS;
    }
    else {
        f = significand;
        e = DP_MIN_EXPONENT + 1;
    }''', '''    const int biased_e = static_cast<int>((u.u64 >> DP_SIGNIFICAND_SIZE) & 0x7FF);
    f = u.u64 & SIGNIFICAND_MASK;
    if (biased_e == 0) {
        e = DP_MIN_EXPONENT + 1;
    } else {
        f |= HIDDEN_BIT;
        e = biased_e - DP_EXPONENT_BIAS;
    }'''),
 (T, '''    uint32_t u = static_cast<uint32_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
    }
    return u32toa(u, buffer);''', '''    if (value >= 0) {
        return u32toa(static_cast<uint32_t>(value), buffer);
    }
    *buffer = '-';
    return u32toa(0u - static_cast<uint32_t>(value), buffer + 1);'''),
 (S, '''        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @
            (c >= 91 && c <= 96) ||     // [ - `]
            (c >= 123 && c <= 126)) {   // ( - ~
            dst.push_back('\\\\');
        }''', '''        if (needsEscape(c)) {
            dst += '\\\\';
        }'''),
 (S, '''static constexpr char HEX[] = "0123456789abcdef";
''', '''static constexpr char HEX[] = "0123456789abcdef";

static bool needsEscape(const char c)
{
    const bool alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
    return c >= 0 && !alnum && c != 127;
}
'''),
 (G, '''    for (size_t i = 0; i < count_ - 1; i++) {
        if (digits_[i] >= backup) {
            return *this; // no carry
        }
        backup = digits_[i + 1];
        digits_[i + 1] += 1;
    }
''', '''    size_t i = 0;
    while (i + 1 < count_) {
        if (digits_[i] >= backup) {
            return *this; // no carry
        }
        ++i;
        backup = digits_[i];
        digits_[i]++;
    }
'''),
 (G, '''    for (size_t i = count_; i-- > 0;)
        if (digits_[i] != other.digits_[i]) {
            return digits_[i] < other.digits_[i] ? -1 : 1;
        }
''', '''    size_t i = count_;
    while (i > 0) {
        --i;
        const uint64_t l = digits_[i], r = other.digits_[i];
        if (l < r) {
            return -1;
        }
        if (l > r) {
            return 1;
        }
    }
'''),
 (E, '''    BitwiseDouble u = {number};
    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) != 0);''', '''    BitwiseDouble u = {number};
    return (u.u64 & EXPONENT_MASK) == EXPONENT_MASK && (u.u64 & SIGNIFICAND_MASK);'''),
 (P, '''    return POWER10[n];''', '''    const double *entry = POWER10 + n;
    return *entry;'''),
 (L, '''    return Extract<T>()(string);''', '''    Extract<T> extract;
    return extract(string);'''),
 (EN, '''    return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(data_));''', '''    using Underlying = underlying_type_t<Enum>;
    const Underlying raw = static_cast<Underlying>(data_);
    return static_cast<Enum>(raw);'''),
]

PASSES['b'] = [
 (B, '''static const char TRUE_STRING[] = LEXI_TRUE;
static const char FALSE_STRING[] = LEXI_FALSE;''', '''static const std::string TRUE_STRING = LEXI_TRUE;
static const std::string FALSE_STRING = LEXI_FALSE;'''),
 (B, '''        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
        size_ = 4;''', '''        memcpy(buffer_, TRUE_STRING.c_str(), TRUE_STRING.size() + 1);
        size_ = TRUE_STRING.size();'''),
 (B, '''        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
        size_ = 5;''', '''        memcpy(buffer_, FALSE_STRING.c_str(), FALSE_STRING.size() + 1);
        size_ = FALSE_STRING.size();'''),
 (C, '''    buffer_[0] = static_cast<const char>(c);
    buffer_[1] = '\\0';''', '''    const char text[2] = {static_cast<char>(c), '\\0'};
    std::copy(text, text + 2, buffer_);'''),
 (C, '''namespace lexi
{
// OBJ''', '''#include <algorithm>

namespace lexi
{
// OBJ'''),
 (F, '''static const char NAN_STRING[] = LEXI_NAN;''', '''static char * copyLiteral(char *dst, const char *src)
{
    while ((*dst = *src++)) {
        ++dst;
    }
    return dst;
}

static const char NAN_STRING[] = LEXI_NAN;'''),
 (F, '''            strncpy(first, NAN_STRING, sizeof(NAN_STRING));
            last += sizeof(NAN_STRING) - 1;''', '''            last = copyLiteral(first, NAN_STRING);'''),
 (F, '''            strncpy(first, INFINITY_STRING, sizeof(INFINITY_STRING));
            last += sizeof(INFINITY_STRING) - 1;''', '''            last = copyLiteral(first, INFINITY_STRING);'''),
 (F, '''            strncpy(first, NEGATIVE_INFINITY_STRING, sizeof(NEGATIVE_INFINITY_STRING));
            last += sizeof(NEGATIVE_INFINITY_STRING) - 1;''', '''            last = copyLiteral(first, NEGATIVE_INFINITY_STRING);'''),
 (F, '''    float_ = std::strtof(string.data(), nullptr);
    double_ = std::strtod(string.data(), nullptr);
    data_ = std::strtold(string.data(), nullptr);''', '''    const char *text = string.c_str();
    char *end = nullptr;
    data_ = std::strtold(text, &end);
    double_ = std::strtod(text, &end);
    float_ = std::strtof(text, &end);'''),
 (I, '''FormatInt::FormatInt(int value)
{
    first = buffer_;
    last = detail::i32toa(value, buffer_);
    *last = '\\0';
}''', '''FormatInt::FormatInt(int value):
    FormatInt(static_cast<long long>(value))
{}'''),
 (I, '''    data_ = std::strtoull(string.data(), nullptr, 10);''', '''    char *end;
    const char *begin = string.c_str();
    data_ = strtoull(begin, &end, 10);'''),
 (I, '''FormatInt & FormatInt::operator=(const FormatInt &other)
{
    if (this != &other) {
        first = buffer_;
        last = buffer_ + other.size();
        memcpy(buffer_, other.buffer_, other.size() + 1);
    }
    return *this;
}''', '''FormatInt & FormatInt::operator=(const FormatInt &other)
{
    const size_t n = other.size();
    memmove(buffer_, other.first, n + 1);
    first = buffer_;
    last = first + n;
    return *this;
}'''),
 (N, '''    LEXI_ASSERT(string == NULL_STRING, "String is not null.");''', '''    static const std::string literal(NULL_STRING);
    if (string != literal) {
        throw std::runtime_error("String is not null.");
    }'''),
 (D, '''    if (n < 10) return 1;
    if (n < 100) return 2;
    if (n < 1000) return 3;
    if (n < 10000) return 4;
    if (n < 100000) return 5;
    if (n < 1000000) return 6;
    if (n < 10000000) return 7;
    if (n < 100000000) return 8;
    if (n < 1000000000) return 9;
    return 10;''', '''    unsigned int count = 1;
    while (n >= 10) {
        n /= 10;
        count++;
    }
    return count;'''),
 (D, '''        switch (kappa) {
            case 10: d = p1 / 1000000000; p1 %= 1000000000; break;
            case  9: d = p1 /  100000000; p1 %=  100000000; break;
            case  8: d = p1 /   10000000; p1 %=   10000000; break;
            case  7: d = p1 /    1000000; p1 %=    1000000; break;
            case  6: d = p1 /     100000; p1 %=     100000; break;
            case  5: d = p1 /      10000; p1 %=      10000; break;
            case  4: d = p1 /       1000; p1 %=       1000; break;
            case  3: d = p1 /        100; p1 %=        100; break;
            case  2: d = p1 /         10; p1 %=         10; break;
            case  1: d = p1;              p1 =           0; break;
            default:
                LEXI_UNREACHABLE(d);
        }
''', '''        const uint32_t divisor = static_cast<uint32_t>(POWER10[kappa - 1]);
        d = p1 / divisor;
        p1 = p1 % divisor;
'''),
 (Y, '''    DiyFp pl = DiyFp((f << 1) + 1, e - 1).normalizeBoundary();
    DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
    mi.f <<= mi.e - pl.e;
    mi.e = pl.e;
    *plus = pl;
    *minus = mi;''', '''    *plus = DiyFp(2 * f + 1, e - 1).normalizeBoundary();
    const int shift = f == HIDDEN_BIT ? 2 : 1;
    const uint64_t lower = (f << shift) - 1;
    const int exponent = e - shift;
    minus->f = lower << (exponent - plus->e);
    minus->e = plus->e;'''),
 (T, '''    if (value < 10000) {
        const uint32_t d1 = (value / 100) << 1;
        const uint32_t d2 = (value % 100) << 1;

        if (value >= 1000) {
            *buffer++ = DIGITS_PTR[d1];
        }
        if (value >= 100) {
            *buffer++ = DIGITS_PTR[d1 + 1];
        }
        if (value >= 10) {
            *buffer++ = DIGITS_PTR[d2];
        }
        *buffer++ = DIGITS_PTR[d2 + 1];

    } else if''', '''    if (value < 10000) {
        buffer = writeSmall(value, buffer);
    } else if'''),
 (T, '''/** \\brief Convert unsigned 32-bit value to string
 */
char * u32toa''', '''/** \\brief Write value below 10000.
 */
static char * writeSmall(uint32_t value, char *buffer)
{
    if (value >= 1000)
        *buffer++ = '0' + value / 1000;
    if (value >= 100)
        *buffer++ = '0' + value / 100 % 10;
    if (value >= 10)
        *buffer++ = '0' + value / 10 % 10;
    *buffer++ = '0' + value % 10;
    return buffer;
}


char * u32toa'''),
 (S, '''    for (const char c: src) {
        if (''', '''    for (size_t i = 0; i < src.size(); ++i) {
        const char c = src[i];
        if ('''),
 (S, '''                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);''', '''                if (static_cast<unsigned char>(c) < 0x20) {
                    const char text[] = {'\\\\', 'u', '0', '0', HEX[c >> 4], HEX[c & 0x0f]};
                    dst.append(text, sizeof(text));'''),
 (G, '''    if (interShift == 0) {
        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
        count_ += offset;
    }''', '''    if (interShift == 0) {
        for (size_t i = count_; i-- > 0; ) {
            digits_[i + offset] = digits_[i];
        }
        count_ += offset;
    }'''),
 (G, '''    memset(digits_, 0, offset * sizeof(uint64_t));
''', '''    for (size_t i = 0; i < offset; i++) {
        digits_[i] = 0;
    }
'''),
 (G, '''    uint64_t r = 0;
    for (const char *p = first; p != last; ++p) {
        LEXI_ASSERT(*p >= '0' && *p <= '9', "Character is not from 0-9.");
        r = r * 10u + static_cast<unsigned>(*p - '0');
    }
    return r;''', '''    uint64_t r = 0;
    while (first < last) {
        const unsigned c = static_cast<unsigned char>(*first++) - static_cast<unsigned>('0');
        if (c > 9) {
            throw std::runtime_error("Character is not from 0-9.");
        }
        r *= 10;
        r += c;
    }
    return r;'''),
 (E, '''    return u.u64 == NEGATIVE_INFINITY;''', '''    return isInf(number) && !isPositive(number);'''),
 (E, '''    return (u.u64 & (EXPONENT_MASK | SIGNIFICAND_MASK)) == 0;''', '''    return (u.u64 << 1) == 0;'''),
 (L, '''    return "\\"" + detail::jsonify(string) + "\\"";''', '''    const std::string body = detail::jsonify(string);
    std::string quoted;
    quoted.reserve(body.size() + 2);
    quoted.push_back('"');
    quoted.append(body);
    quoted.push_back('"');
    return quoted;'''),
]

PASSES['c'] = [
 (B, '''    if (string == TRUE_STRING) {
        data_ = true;
    } else if (string == FALSE_STRING) {
        data_ = false;
    } else {
        throw std::runtime_error("String is not boolean.");
    }''', '''    switch (string.size()) {
        case sizeof(TRUE_STRING) - 1:
            if (memcmp(string.data(), TRUE_STRING, sizeof(TRUE_STRING) - 1) == 0) {
                data_ = true;
                return;
            }
            break;
        case sizeof(FALSE_STRING) - 1:
            if (memcmp(string.data(), FALSE_STRING, sizeof(FALSE_STRING) - 1) == 0) {
                data_ = false;
                return;
            }
            break;
        default:
            break;
    }
    throw std::runtime_error("String is not boolean.");'''),
 (C, '''    return std::string(data(), size());''', '''    return std::string(1, buffer_[0]);'''),
 (C, '''    LEXI_ASSERT(!string.empty(), "Cannot extract character from empty string.");
    c = string.front();''', '''    if (string.size() == 0) {
        throw std::runtime_error("Cannot extract character from empty string.");
    }
    c = *string.begin();'''),
 (F, '''    first(buffer_),
    last(buffer_ + other.size())
{
    memcpy(buffer_, other.buffer_, other.size() + 1);
}''', '''    first(buffer_),
    last(buffer_)
{
    *this = other;
}'''),
 (F, '''FormatFloat::FormatFloat(float value)
{
    format(value);
}''', '''FormatFloat::FormatFloat(float value):
    FormatFloat(static_cast<double>(value))
{}'''),
 (F, '''    return std::string(data(), size());''', '''    std::string result(first, last);
    return result;'''),
 (I, '''    return std::string(data(), size());''', '''    return std::string(first, last);'''),
 (I, '''FormatInt::FormatInt(uint8_t value)
{
    first = buffer_;
    last = detail::u32toa(value, buffer_);
    *last = '\\0';
}''', '''FormatInt::FormatInt(uint8_t value):
    first(buffer_),
    last(detail::u32toa(value, buffer_))
{
    *last = 0;
}'''),
 (N, '''    LEXI_ASSERT(string == NULL_STRING, "String is not null.");''', '''    const size_t n = sizeof(NULL_STRING) - 1;
    bool equal = string.size() == n;
    for (size_t i = 0; equal && i < n; ++i) {
        equal = string[i] == NULL_STRING[i];
    }
    if (!equal) {
        throw std::runtime_error("String is not null.");
    }'''),
 (D, '''    if (value == 0) {
        *buffer++ = '0';
        *buffer++ = '.';
        *buffer++ = '0';
        *buffer = '\\0';
    } else {
        if (value < 0) {
            *buffer++ = '-';
            value = -value;
        }
        int length, k;
        grisu2(value, buffer, &length, &k);
        buffer = prettify(buffer, length, k);
    }

    return buffer;''', '''    if (value == 0) {
        memcpy(buffer, "0.0", 4);
        return buffer + 3;
    }
    if (value < 0) {
        *buffer++ = '-';
        value = -value;
    }
    int length = 0;
    int k = 0;
    grisu2(value, buffer, &length, &k);
    return prettify(buffer, length, k);'''),
 (D, '''    if (k >= 100) {
        *buffer++ = '0' + static_cast<char>(k / 100);
        k %= 100;
        const char *d = DIGITS_PTR + k * 2;
        *buffer++ = d[0];
        *buffer++ = d[1];
    } else if (k >= 10) {
        const char *d = DIGITS_PTR + k * 2;
        *buffer++ = d[0];
        *buffer++ = d[1];
    } else {
        *buffer++ = '0' + static_cast<char>(k);
    }
    *buffer = '\\0';''', '''    const bool three = k >= 100;
    if (three) {
        *buffer++ = static_cast<char>('0' + k / 100);
        k %= 100;
    }
    if (three || k >= 10) {
        *buffer++ = static_cast<char>('0' + k / 10);
    }
    *buffer++ = static_cast<char>('0' + k % 10);
    *buffer = '\\0';'''),
 (D, '''    const DiyFp c_mk = getCachedPower(w_p.e, k);
    const DiyFp W = v.normalize() * c_mk;
    DiyFp Wp = w_p * c_mk;
    DiyFp Wm = w_m * c_mk;
    Wm.f++;
    Wp.f--;
    generateDigits(W, Wp, Wp.f - Wm.f, buffer, length, k);''', '''    const DiyFp power = getCachedPower(w_p.e, k);
    const DiyFp lower = w_m * power;
    DiyFp upper = w_p * power;
    upper.f -= 1;
    const uint64_t delta = upper.f - (lower.f + 1);
    generateDigits(v.normalize() * power, upper, delta, buffer, length, k);'''),
 (Y, '''        unsigned __int128 p = static_cast<unsigned __int128>(left.f) * static_cast<unsigned __int128>(right.f);
        uint64_t h = p >> 64;
        uint64_t l = static_cast<uint64_t>(p);
        if (l & (uint64_t(1) << 63)) { // rounding
            h++;
        }
        return DiyFp(h, left.e + right.e + 64);''', '''        const unsigned __int128 p = static_cast<unsigned __int128>(left.f) * right.f;
        const uint64_t round = static_cast<uint64_t>(p >> 63) & 1;
        return DiyFp(static_cast<uint64_t>(p >> 64) + round, left.e + right.e + 64);'''),
 (T, '''    uint64_t u = static_cast<uint64_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
    }

    return u64toa(u, buffer);''', '''    const bool negative = value < 0;
    const uint64_t magnitude = negative ? -static_cast<uint64_t>(value) : static_cast<uint64_t>(value);
    if (negative) {
        buffer[0] = '-';
        buffer += 1;
    }

    return u64toa(magnitude, buffer);'''),
 (S, '''    for (const char c: src) {
        switch (c) {''', '''    for (auto it = src.begin(); it != src.end(); ++it) {
        const char c = *it;
        switch (c) {'''),
 (S, '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for''', '''    std::string dst;

    for'''),
 (G, '''    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        uint64_t hi;
        digits_[i] = mulAdd(digits_[i], digit, k, &hi);
        k = hi;
    }
''', '''    uint64_t k = 0;
    uint64_t *it = digits_;
    uint64_t *const end = digits_ + count_;
    while (it != end) {
        uint64_t hi;
        *it = mulAdd(*it, digit, k, &hi);
        k = hi;
        ++it;
    }
'''),
 (G, '''        uint64_t d = digit - borrow;
        borrow = (d > digit) ? 1 : 0;
        if (i < b->count_) {
            const uint64_t tmp = d;
            d -= b->digits_[i];
            borrow |= (d > tmp) ? 1 : 0;
        }''', '''        const uint64_t sub = i < b->count_ ? b->digits_[i] : 0;
        const uint64_t d = digit - sub - borrow;
        borrow = (digit < sub || (digit == sub && borrow)) ? 1 : 0;'''),
 (G, '''    return count_ == other.count_ && memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;''', '''    return compare(other) == 0;'''),
 (G, '''    for (; exponent >= 27; exponent -= 27) {
        *this *= static_cast<uint64_t>(0X6765C793FA10079DULL);  // 5^27
    }''', '''    while (exponent >= 27) {
        *this *= static_cast<uint64_t>(0X6765C793FA10079DULL);  // 5^27
        exponent -= 27;
    }'''),
 (E, '''    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) == 0);''', '''    return (u.u64 & ~SIGN_MASK) == EXPONENT_MASK;'''),
 (L, '''    return Format()(t).escape();''', '''    Format format;
    const auto formatted = format(t);
    return formatted.escape();'''),
]

PASSES['d'] = [
 (D, '''/** \\brief Generate digits and move into buffer.
 */''', '''/** \\brief Append digit, unless it would be a leading zero.
 */
static inline void appendDigit(char *buffer, int *len, char d)
{
    if (d != 0 || *len != 0) {
        buffer[*len] = '0' + d;
        ++*len;
    }
}


/** \\brief Generate digits and move into buffer.
 */'''),
 (D, '''        if (d || *len) {
            buffer[(*len)++] = '0' + static_cast<char>(d);
        }
        kappa--;''', '''        appendDigit(buffer, len, static_cast<char>(d));
        kappa--;'''),
 (D, '''    for (;;) {
        p2 *= 10;
        delta *= 10;
        char d = static_cast<char>(p2 >> -one.e);
        if (d || *len) {
            buffer[(*len)++] = '0' + d;
        }
        p2 &= one.f - 1;
        kappa--;
        if (p2 < delta) {
            *k += kappa;
            grisuRound(buffer, *len, delta, p2, one.f, wp_w.f * POWER10[-kappa]);
            return;
        }
    }''', '''    const int shift = -one.e;
    const uint64_t mask = one.f - 1;
    do {
        p2 *= 10;
        delta *= 10;
        appendDigit(buffer, len, static_cast<char>(p2 >> shift));
        p2 &= mask;
        --kappa;
    } while (p2 >= delta);

    *k += kappa;
    grisuRound(buffer, *len, delta, p2, one.f, wp_w.f * POWER10[-kappa]);'''),
 (D, '''        memmove(&buffer[kk + 1], &buffer[kk], length - kk);
        buffer[kk] = '.';
        buffer[length + 1] = '\\0';
        return &buffer[length + 1];''', '''        for (int i = length; i > kk; --i) {
            buffer[i] = buffer[i - 1];
        }
        buffer[kk] = '.';
        char *end = buffer + length + 1;
        *end = '\\0';
        return end;'''),
 (D, '''        memmove(&buffer[offset], &buffer[0], length);
        buffer[0] = '0';
        buffer[1] = '.';
        for (int i = 2; i < offset; i++) {
            buffer[i] = '0';
        }''', '''        memmove(buffer + offset, buffer, static_cast<size_t>(length));
        memset(buffer, '0', offset);
        buffer[1] = '.';'''),
 (Y, '''        DiyFp res = diyfp;
        while (!(res.f & (HIDDEN_BIT << 1))) {
            res.f <<= 1;
            res.e--;
        }
        res.f <<= (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        res.e = res.e - (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        return res;''', '''        const int s = __builtin_clzll(diyfp.f);
        return DiyFp(diyfp.f << s, diyfp.e - s);'''),
 (T, '''/** \\brief Convert unsigned 64-bit value to string
 */''', '''static inline char * writePair(char *buffer, const uint32_t index)
{
    buffer[0] = DIGITS_PTR[index];
    buffer[1] = DIGITS_PTR[index + 1];
    return buffer + 2;
}

static inline char * writeEight(char *buffer, uint32_t value)
{
    const uint32_t b = value / 10000;
    const uint32_t c = value % 10000;
    buffer = writePair(buffer, (b / 100) << 1);
    buffer = writePair(buffer, (b % 100) << 1);
    buffer = writePair(buffer, (c / 100) << 1);
    return writePair(buffer, (c % 100) << 1);
}

/** \\brief Convert unsigned 64-bit value to string
 */'''),
 (T, '''        const uint32_t v0 = static_cast<uint32_t>(value / TEN8);
        const uint32_t v1 = static_cast<uint32_t>(value % TEN8);

        const uint32_t b0 = v0 / 10000;
        const uint32_t c0 = v0 % 10000;

        const uint32_t d1 = (b0 / 100) << 1;
        const uint32_t d2 = (b0 % 100) << 1;

        const uint32_t d3 = (c0 / 100) << 1;
        const uint32_t d4 = (c0 % 100) << 1;

        const uint32_t b1 = v1 / 10000;
        const uint32_t c1 = v1 % 10000;

        const uint32_t d5 = (b1 / 100) << 1;
        const uint32_t d6 = (b1 % 100) << 1;

        const uint32_t d7 = (c1 / 100) << 1;
        const uint32_t d8 = (c1 % 100) << 1;

        *buffer++ = DIGITS_PTR[d1];
        *buffer++ = DIGITS_PTR[d1 + 1];
        *buffer++ = DIGITS_PTR[d2];
        *buffer++ = DIGITS_PTR[d2 + 1];
        *buffer++ = DIGITS_PTR[d3];
        *buffer++ = DIGITS_PTR[d3 + 1];
        *buffer++ = DIGITS_PTR[d4];
        *buffer++ = DIGITS_PTR[d4 + 1];
        *buffer++ = DIGITS_PTR[d5];
        *buffer++ = DIGITS_PTR[d5 + 1];
        *buffer++ = DIGITS_PTR[d6];
        *buffer++ = DIGITS_PTR[d6 + 1];
        *buffer++ = DIGITS_PTR[d7];
        *buffer++ = DIGITS_PTR[d7 + 1];
        *buffer++ = DIGITS_PTR[d8];
        *buffer++ = DIGITS_PTR[d8 + 1];
    }

    return buffer;''', '''        buffer = writeEight(buffer, static_cast<uint32_t>(value / TEN8));
        buffer = writeEight(buffer, static_cast<uint32_t>(value % TEN8));
    }

    return buffer;'''),
 (S, '''    for (const char c: src) {
        switch (c) {
            //case '\\0':
            case '\\b':
                dst.push_back('\\\\');
                dst.push_back('b');
                break;
            case '\\f':
                dst.push_back('\\\\');
                dst.push_back('f');
                break;
            case '\\n':
                dst.push_back('\\\\');
                dst.push_back('n');
                break;
            case '\\r':
                dst.push_back('\\\\');
                dst.push_back('r');
                break;
            case '\\t':
                dst.push_back('\\\\');
                dst.push_back('t');
                break;
            case '\\\\':
                dst.push_back('\\\\');
                dst.push_back('\\\\');
                break;
            case '"':
                dst.push_back('\\\\');
                dst.push_back('"');
                break;
            default:
                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);
                } else {
                    dst.push_back(c);
                }
        }
    }
''', '''    for (const char c: src) {
        appendJson(dst, c);
    }
'''),
 (S, '''static constexpr char HEX[] = "0123456789abcdef";
''', '''static constexpr char HEX[] = "0123456789abcdef";

static char shortEscape(const char c)
{
    static const char FROM[] = {'\\b', '\\f', '\\n', '\\r', '\\t', '\\\\', '"'};
    static const char TO[] = {'b', 'f', 'n', 'r', 't', '\\\\', '"'};
    for (size_t i = 0; i < sizeof(FROM); ++i) {
        if (FROM[i] == c) {
            return TO[i];
        }
    }
    return '\\0';
}

static void appendJson(std::string &dst, const char c)
{
    const char letter = shortEscape(c);
    if (letter != '\\0') {
        dst += '\\\\';
        dst += letter;
    } else if (c >= 0x00 && c <= 0x1f) {
        dst += "\\\\u00";
        dst += HEX[(c >> 4) & 1];
        dst += HEX[c & 0x0f];
    } else {
        dst += c;
    }
}
'''),
 (G, '''    uint64_t borrow = 0;
    for (size_t i = 0; i < a->count_; i++) {
        const uint64_t digit = a->digits_[i];
        uint64_t d = digit - borrow;
        borrow = (d > digit) ? 1 : 0;
        if (i < b->count_) {
            const uint64_t tmp = d;
            d -= b->digits_[i];
            borrow |= (d > tmp) ? 1 : 0;
        }
        out->digits_[i] = d;
        if (d != 0) {
            out->count_ = i + 1;
        }
    }
''', '''    uint64_t borrow = 0;
    size_t i = 0;
    for (; i < b->count_; i++) {
        const uint64_t digit = a->digits_[i];
        uint64_t d = digit - borrow;
        borrow = d > digit;
        const uint64_t tmp = d;
        d -= b->digits_[i];
        borrow |= d > tmp;
        out->digits_[i] = d;
        if (d != 0) {
            out->count_ = i + 1;
        }
    }
    for (; i < a->count_; i++) {
        const uint64_t digit = a->digits_[i];
        const uint64_t d = digit - borrow;
        borrow = d > digit;
        out->digits_[i] = d;
        if (d != 0) {
            out->count_ = i + 1;
        }
    }
'''),
 (G, '''    digits_[0] = 0;
    size_t i = 0;
    while (length >= DIGITS_ITERATION) {
        add(decimals + i, decimals + i + DIGITS_ITERATION);
        length -= DIGITS_ITERATION;
        i += DIGITS_ITERATION;
    }

    if (length > 0) {
        add(decimals + i, decimals + i + length);
    }''', '''    digits_[0] = 0;
    const char *first = decimals;
    const char *const last = decimals + length;
    while (static_cast<size_t>(last - first) >= DIGITS_ITERATION) {
        add(first, first + DIGITS_ITERATION);
        first += DIGITS_ITERATION;
    }

    if (first != last) {
        add(first, last);
    }'''),
 (G, '''    const uint64_t carry = digits_[count_ - 1] >> (INT64_BYTE - interShift);
        if (carry) {''', '''    const size_t rest = INT64_BYTE - interShift;
        const uint64_t carry = digits_[count_ - 1] >> rest;
        if (carry != 0) {'''),
 (G, '''        for (size_t i = count_ - 1; i > 0; i--) {
            digits_[i + offset] = (digits_[i] << interShift) | (digits_[i - 1] >> (INT64_BYTE - interShift));
        }''', '''        size_t i = count_ - 1;
        while (i > 0) {
            const uint64_t high = digits_[i] << interShift;
            const uint64_t low = digits_[i - 1] >> rest;
            digits_[i + offset] = high + low;
            --i;
        }'''),
 (E, '''/** \\brief Check if number is NaN.
 */''', '''static uint64_t bitsOf(const double number)
{
    uint64_t bits;
    memcpy(&bits, &number, sizeof(bits));
    return bits;
}


/** \\brief Check if number is NaN.
 */'''),
 (E, '''namespace lexi
{''', '''#include <cstring>

namespace lexi
{'''),
 (E, '''    BitwiseDouble u = {number};
    return (u.u64 & SIGN_MASK) == 0;''', '''    return (bitsOf(number) >> 63) == 0;'''),
 (E, '''    BitwiseDouble u = {number};
    return (u.u64 & EXPONENT_MASK) != EXPONENT_MASK;''', '''    return (bitsOf(number) & EXPONENT_MASK) < EXPONENT_MASK;'''),
 (L, '''    return Format()(t).string();''', '''    return std::string(Format()(t));'''),
 (I, '''FormatInt::FormatInt(long value)
{
    first = buffer_;
''', '''FormatInt::FormatInt(long value)
{
    static_assert(sizeof(buffer_) >= 21, "buffer too small");
    first = &buffer_[0];
'''),
 (I, '''ExtractInt::operator int8_t() const
{
    return static_cast<long long>(data_);
}''', '''ExtractInt::operator int8_t() const
{
    return static_cast<int8_t>(data_ & 0xFF);
}'''),
 (N, '''    return std::string(data(), size());''', '''    return NULL_STRING;'''),
 (B, '''    return std::string(data(), size());''', '''    return std::string(buffer_);'''),
]

PASSES['e'] = [
 (D, '''    if (length <= kk && kk <= 21) {
        // 1234e7 -> 12340000000
        for (int i = length; i < kk; i++) {
            buffer[i] = '0';
        }
        buffer[kk] = '.';
        buffer[kk + 1] = '0';
        buffer[kk + 2] = '\\0';
        return &buffer[kk + 2];
    } else if''', '''    if (length <= kk && kk <= 21) {
        // 1234e7 -> 12340000000
        char *p = buffer + length;
        char *const end = buffer + kk;
        while (p < end) {
            *p++ = '0';
        }
        *p++ = '.';
        *p++ = '0';
        *p = '\\0';
        return p;
    } else if'''),
 (D, '''    double dk = (-61 - e) * 0.30102999566398114 + 347;
    // dk must be positive, so can do ceiling in positive
    int kk = static_cast<int>(dk);
    if (kk != dk) {
        kk++;
    }

    unsigned index = static_cast<unsigned>((kk >> 3) + 1);''', '''    const double dk = (-61 - e) * 0.30102999566398114 + 347;
    const int floored = static_cast<int>(dk);
    const int kk = dk > floored ? floored + 1 : floored;
    const unsigned index = static_cast<unsigned>(kk / 8 + 1);'''),
 (D, '''    uint32_t p1 = static_cast<uint32_t>(Mp.f >> -one.e);
    uint64_t p2 = Mp.f & (one.f - 1);''', '''    const int bits = -Mp.e;
    uint32_t p1 = static_cast<uint32_t>(Mp.f >> bits);
    uint64_t p2 = Mp.f - (static_cast<uint64_t>(p1) << bits);'''),
 (D, '''static const char *DIGITS_PTR = DIGITS;
''', '''static const char *const DIGITS_PTR = DIGITS;
'''),
 (Y, '''        int s = __builtin_clzll(diyfp.f);
        return DiyFp(diyfp.f << s, diyfp.e - s);''', '''        DiyFp res = diyfp;
        while (!(res.f >> 63)) {
            res.f <<= 1;
            --res.e;
        }
        return res;'''),
 (Y, '''    return DiyFp(f - other.f, e);''', '''    DiyFp result(*this);
    result.f -= other.f;
    return result;'''),
 (T, '''char * u32toa(uint32_t value,
    char *buffer)
{''', '''char * u32toa(uint32_t value,
    char *buffer)
{
    if (value < 100000) {
        char tmp[5];
        int n = 0;
        do {
            tmp[n++] = static_cast<char>('0' + value % 10);
            value /= 10;
        } while (value != 0);
        while (n > 0) {
            *buffer++ = tmp[--n];
        }
        return buffer;
    }
'''),
 (S, '''    for (const char c: src) {
        if (''', '''    const char *p = src.data();
    const char *const end = p + src.size();
    while (p != end) {
        const char c = *p++;
        if ('''),
 (S, '''    dst.reserve(src.size() * 2 + 1);
    for (const char c: src) {''', '''    for (std::string::const_iterator it = src.cbegin(), last = src.cend(); it < last; ++it) {
        const char c = *it;'''),
 (S, '''    dst.shrink_to_fit();
    return dst;''', '''    return dst;'''),
 (G, '''    if (digit == 0) {
        return *this = 0;
    } else if (digit == 1) {
        return *this;
    } else if (*this == 1) {
        return *this = digit;
    }

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        const uint64_t c''', '''    return *this *= static_cast<uint64_t>(digit);

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        const uint64_t c'''),
 (G, '''    uint64_t backup = digits_[0];
    digits_[0] += digit;
    for (size_t i = 0; i < count_ - 1; i++) {
        if (digits_[i] >= backup) {
            return *this; // no carry
        }
        backup = digits_[i + 1];
        digits_[i + 1] += 1;
    }

    // Last carry
    if (digits_[count_ - 1] < backup) {
        push_back(1);
    }

    return *this;''', '''    digits_[0] += digit;
    bool carry = digits_[0] < digit;
    for (size_t i = 1; carry && i < count_; i++) {
        digits_[i] += 1;
        carry = digits_[i] == 0;
    }

    if (carry) {
        push_back(1);
    }

    return *this;'''),
 (G, '''    return count_ == other.count_ && memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;''', '''    if (count_ != other.count_) {
        return false;
    }
    for (size_t i = 0; i < count_; ++i) {
        if (digits_[i] != other.digits_[i]) {
            return false;
        }
    }
    return true;'''),
 (G, '''    count_(other.count_)
{
    memcpy(digits_, other.digits_, count_ * sizeof(uint64_t));
}''', '''    count_(other.count_)
{
    for (size_t i = 0; i < count_; ++i) {
        digits_[i] = other.digits_[i];
    }
}'''),
 (G, '''    if (this != &other) {
        count_ = other.count_;
        memcpy(digits_, other.digits_, count_ * sizeof(uint64_t));
    }''', '''    if (this != &other) {
        std::copy(other.digits_, other.digits_ + other.count_, digits_);
        count_ = other.count_;
    }'''),
 (G, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (G, '''    const BigInteger *a, *b;  // Makes a > b
    bool ret;
    if (cmp < 0) {
        a = &other; b = this;
        ret = true;
    } else {
        a = this; b = &other;
        ret = false;
    }
''', '''    const bool ret = cmp < 0;
    const BigInteger *a = this, *b = &other;
    if (ret) {
        std::swap(a, b);
    }
'''),
 (P, '''    return POWER10[n];''', '''    if (n == 0) {
        return 1.0;
    }
    return POWER10[n];'''),
 (F, '''    if (this != &other) {
        first = buffer_;
        last = buffer_ + other.size();
        memcpy(buffer_, other.buffer_, other.size() + 1);
    }
    return *this;''', '''    if (this == &other) {
        return *this;
    }
    const size_t length = other.size();
    std::copy(other.first, other.last, buffer_);
    buffer_[length] = '\\0';
    first = buffer_;
    last = buffer_ + length;
    return *this;'''),
 (F, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (I, '''    first(buffer_),
    last(buffer_ + other.size())
{
    memcpy(buffer_, other.buffer_, other.size() + 1);
}''', '''    first(buffer_),
    last(std::copy(other.first, other.last, buffer_))
{
    *last = '\\0';
}'''),
 (I, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (EN, '''    FormatInt(static_cast<underlying_type_t<Enum>>(value))
{}''', '''    FormatInt(toUnderlying(value))
{}'''),
 (EN, '''/** \\brief Generic enum formatter.
 */''', '''/** \\brief Underlying integer of an enumerator.
 */
template <typename Enum>
constexpr underlying_type_t<Enum> toUnderlying(const Enum value)
{
    return static_cast<underlying_type_t<Enum>>(value);
}


/** \\brief Generic enum formatter.
 */'''),
 (L, '''    return "\\"" + detail::jsonify(string) + "\\"";''', '''    std::string body = detail::jsonify(string);
    body.insert(body.begin(), '"');
    body.push_back('"');
    return body;'''),
 (C, '''    return "\\"" + detail::jsonify(string()) + "\\"";''', '''    std::string body = detail::jsonify(string());
    body.insert(0, "\\"");
    return body + '"';'''),
]

IH, FH, BH = 'include/lexi/int.hpp', 'include/lexi/float.hpp', 'include/lexi/detail/bigint.hpp'
PASSES['f'] = [
 (IH, '''    char *first;
    char *last;

public:
    FormatInt(int8_t''', '''    size_t size_;

    void finish(const char *end);

public:
    FormatInt(int8_t'''),
 (I, '''FormatInt::FormatInt(int8_t value)
{''', '''/** \\brief Terminate buffer and store the size.
 */
void FormatInt::finish(const char *end)
{
    size_ = static_cast<size_t>(end - buffer_);
    buffer_[size_] = '\\0';
}


FormatInt::FormatInt(int8_t value)
{'''),
 ('re:' + I, r'''    first = buffer_;\n    last = (detail::[a-z0-9]+\(value, buffer_\));\n    \*last = '\\0';''', r'''    finish(\1);'''),
 ('re:' + I, r'''    first = buffer_;\n\n''', ''),
 ('re:' + I, r'''last = (detail::[a-z0-9]+\(value, buffer_\));''', r'''finish(\1);'''),
 ('re:' + I, r'''\n    \*last = '\\0';\n''', ''),
 (I, '''    first(buffer_),
    last(buffer_ + other.size())
{
    memcpy(''', '''    size_(other.size_)
{
    memcpy('''),
 (I, '''        first = buffer_;
        last = buffer_ + other.size();
''', '''        size_ = other.size_;
'''),
 (I, '''    return last - first;''', '''    return size_;'''),
 (I, '''    return first;''', '''    return buffer_;'''),
 (D, '''char * prettify(char *buffer,
    int length,
    int k)
{''', '''static char * writeNotation(char *buffer,
    const int length,
    const int k)
{'''),
 (D, '''        buffer = prettify(buffer, length, k);''', '''        buffer = writeNotation(buffer, length, k);'''),
 (G, '''#elif (__GNUC__ > 4''', '''#elif 1 && (__GNUC__ > 4'''),
 (BH, '''    uint64_t digits_[capacity];
    size_t count_;
''', '''    size_t count_;
    uint64_t digits_[capacity];
'''),
]

PASSES['g'] = [
 (D, '''/** \\brief Round digit count from Grisu2 value.
 */
void grisuRound(''', '''static bool closer(uint64_t rest, uint64_t ten_kappa, uint64_t wp_w)
{
    return rest + ten_kappa < wp_w || wp_w - rest > rest + ten_kappa - wp_w;
}

/** \\brief Round digit count from Grisu2 value.
 */
static void roundWeed('''),
 (D, '''           (rest + ten_kappa < wp_w ||  /// closer
            wp_w - rest > rest + ten_kappa - wp_w)) {''', '''           closer(rest, ten_kappa, wp_w)) {'''),
 (D, '''            grisuRound(buffer, *len, delta, tmp,''', '''            roundWeed(buffer, *len, delta, tmp,'''),
 (D, '''            grisuRound(buffer, *len, delta, p2,''', '''            roundWeed(buffer, *len, delta, p2,'''),
 (D, '''unsigned int decimalCount(''', '''static unsigned int countDigits('''),
 (D, '''static_cast<int>(decimalCount(p1))''', '''static_cast<int>(countDigits(p1))'''),
 (T, '''#include "lexi/detail/itoa.hpp"
''', '''#include "lexi/detail/itoa.hpp"

#include <cstring>
'''),
 (T, '''char * u64toa(uint64_t value,
    char *buffer)
{''', '''static char * generic64(uint64_t value, char *buffer)
{
    char tmp[20];
    char *p = tmp + sizeof(tmp);
    while (value >= 10) {
        const uint64_t q = value / 10;
        *--p = static_cast<char>('0' + (value - q * 10));
        value = q;
    }
    *--p = static_cast<char>('0' + value);
    const size_t n = tmp + sizeof(tmp) - p;
    memcpy(buffer, p, n);
    return buffer + n;
}


char * u64toa(uint64_t value,
    char *buffer)
{
    if (value >= TEN8 * TEN8 * 1000) {
        return generic64(value, buffer);
    }
'''),
 (Y, '''void DiyFp::normalizedBoundaries(DiyFp *minus, DiyFp *plus) const
{''', '''static DiyFp lowerBoundary(const DiyFp &v)
{
    if (v.f == HIDDEN_BIT) {
        return DiyFp((v.f << 2) - 1, v.e - 2);
    }
    return DiyFp((v.f << 1) - 1, v.e - 1);
}


void DiyFp::normalizedBoundaries(DiyFp *minus, DiyFp *plus) const
{'''),
 (Y, '''    DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
''', '''    DiyFp mi = lowerBoundary(*this);
'''),
 (S, '''std::string escape(const std::string &src)
{
    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for (const char c: src) {
        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @
            (c >= 91 && c <= 96) ||     // [ - `]
            (c >= 123 && c <= 126)) {   // ( - ~
            dst.push_back('\\\\');
        }
        dst.push_back(c);
    }

    dst.shrink_to_fit();
    return dst;''', '''std::string escape(const std::string &src)
{
    std::string dst;
    dst.reserve(src.size() * 2 + 1);
    auto punctuation = [](const char c) {
        return (c >= 0 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);
    };
    for (size_t i = 0, n = src.length(); i != n; i++) {
        if (punctuation(src.at(i))) {
            dst.append(1, '\\\\');
        }
        dst.append(1, src.at(i));
    }
    return dst;'''),
 (S, '''                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);''', '''                    const unsigned char u = static_cast<unsigned char>(c);
                    dst += std::string("\\\\u00") + HEX[u / 16] + HEX[u % 16];'''),
 (B, '''    if (string == TRUE_STRING) {''', '''    static const std::string truth(TRUE_STRING, sizeof(TRUE_STRING) - 1);
    if (truth == string) {'''),
 (N, '''    LEXI_ASSERT(string == NULL_STRING, "String is not null.");''', '''    if (std::string(NULL_STRING) != string) {
        throw std::runtime_error("String is not null.");
    }'''),
 (C, '''    return detail::escape(string());''', '''    const std::string raw(buffer_, buffer_ + 1);
    return detail::escape(raw);'''),
 (C, '''    c = string.front();''', '''    c = string.at(0);'''),
 (F, '''    double_ = std::strtod(string.data(), nullptr);''', '''    const auto text = string.c_str();
    double_ = std::strtod(text, nullptr);'''),
 (I, '''    data_ = std::strtoull(string.data(), nullptr, 10);''', '''    constexpr int base = 10;
    data_ = std::strtoull(&string[0], nullptr, base);'''),
 (G, '''    for (size_t i = 0; i < count_; i++) {
        uint64_t hi;
        digits_[i] = mulAdd(digits_[i], digit, k, &hi);
        k = hi;
    }
''', '''    for (uint64_t &limb: limbs()) {
        uint64_t hi;
        limb = mulAdd(limb, digit, k, &hi);
        k = hi;
    }
'''),
 (BH, '''    void push_back(uint64_t digit);
''', '''    void push_back(uint64_t digit);

    struct Range
    {
        uint64_t *first, *last;
        uint64_t * begin() const { return first; }
        uint64_t * end() const { return last; }
    };
    Range limbs() { return Range{digits_, digits_ + count_}; }
'''),
 (G, '''    for (size_t i = count_; i-- > 0;)
        if (digits_[i] != other.digits_[i]) {
            return digits_[i] < other.digits_[i] ? -1 : 1;
        }
''', '''    const uint64_t *p = digits_ + count_;
    const uint64_t *q = other.digits_ + count_;
    while (p != digits_) {
        --p;
        --q;
        if (*p != *q) {
            return *p < *q ? -1 : 1;
        }
    }
'''),
 (G, '''    if (exponent == 0) {
        return *this;
    }
    for (; exponent >= 27; exponent -= 27) {
        *this *= static_cast<uint64_t>(0X6765C793FA10079DULL);  // 5^27
    }
    for (; exponent >= 13; exponent -= 13) {
        *this *= static_cast<uint32_t>(1220703125u);            // 5^13
    }
    if (exponent > 0) {
        *this *= POWER5[exponent - 1];
    }
    return *this;''', '''    while (exponent > 0) {
        const unsigned int step = exponent < 12 ? exponent : 12;
        *this *= POWER5[step - 1];
        exponent -= step;
    }
    return *this;'''),
 (E, '''    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) != 0);''', '''    if (isFinite(number)) {
        return false;
    }
    return !isInf(number);'''),
 (L, '''    enable_if_t<is_fpos_v<T>, FormatInt>
    operator()(const T t)
    {
        return FormatInt(std::streamoff(t));''', '''    enable_if_t<is_fpos_v<T>, FormatInt>
    operator()(const T t)
    {
        const std::streamoff offset = t;
        return FormatInt(offset);'''),
]

PASSES['h'] = [
 (T, '''#include "lexi/detail/itoa.hpp"
''', '''#include "lexi/detail/itoa.hpp"

#include <algorithm>
#include <cstring>
'''),
 (T, '''/** \\brief Convert signed 32-bit value to string
 */
char * i32toa(int32_t value,
    char *buffer)
{
    uint32_t u = static_cast<uint32_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
    }
    return u32toa(u, buffer);''', '''template <typename Unsigned, typename Signed>
static Unsigned magnitude(Signed value)
{
    return value < 0 ? Unsigned(0) - static_cast<Unsigned>(value) : static_cast<Unsigned>(value);
}


/** \\brief Convert signed 32-bit value to string
 */
char * i32toa(int32_t value,
    char *buffer)
{
    const bool negative = value < 0;
    if (negative) {
        *buffer++ = '-';
    }
    return u32toa(magnitude<uint32_t>(value), buffer);'''),
 (T, '''    uint64_t u = static_cast<uint64_t>(value);
    if (value < 0) {
        *buffer++ = '-';
        u = ~u + 1;
    }

    return u64toa(u, buffer);''', '''    const uint64_t u = magnitude<uint64_t>(value);
    *buffer = '-';
    return u64toa(u, buffer + (value < 0 ? 1 : 0));'''),
 (T, '''    if (value < 10000) {
        const uint32_t d1 = (value / 100) << 1;
        const uint32_t d2 = (value % 100) << 1;

        if (value >= 1000) {
            *buffer++ = DIGITS_PTR[d1];
        }
        if (value >= 100) {
            *buffer++ = DIGITS_PTR[d1 + 1];
        }
        if (value >= 10) {
            *buffer++ = DIGITS_PTR[d2];
        }
        *buffer++ = DIGITS_PTR[d2 + 1];

    } else if''', '''    if (value < 10000) {
        char *first = buffer;
        do {
            *buffer++ = static_cast<char>('0' + value % 10);
            value /= 10;
        } while (value != 0);
        std::reverse(first, buffer);
    } else if'''),
 (T, '''    } else if (value < TEN16) {
        const uint32_t v0''', '''    } else if (value < TEN16) {
        if (value < TEN9) {
            // nine digits fit the 32-bit routine
            return u32toa(static_cast<uint32_t>(value), buffer);
        }
        const uint32_t v0'''),
 (D, '''    if (n < 10) return 1;
    if (n < 100) return 2;
    if (n < 1000) return 3;
    if (n < 10000) return 4;
    if (n < 100000) return 5;
    if (n < 1000000) return 6;
    if (n < 10000000) return 7;
    if (n < 100000000) return 8;
    if (n < 1000000000) return 9;
    return 10;''', '''    unsigned int digits = 1;
    while (digits < 10 && n >= POWER10[digits]) {
        digits++;
    }
    return digits;'''),
 (D, '''        uint32_t d;
        switch (kappa) {
            case 10: d = p1 / 1000000000; p1 %= 1000000000; break;
            case  9: d = p1 /  100000000; p1 %=  100000000; break;
            case  8: d = p1 /   10000000; p1 %=   10000000; break;
            case  7: d = p1 /    1000000; p1 %=    1000000; break;
            case  6: d = p1 /     100000; p1 %=     100000; break;
            case  5: d = p1 /      10000; p1 %=      10000; break;
            case  4: d = p1 /       1000; p1 %=       1000; break;
            case  3: d = p1 /        100; p1 %=        100; break;
            case  2: d = p1 /         10; p1 %=         10; break;
            case  1: d = p1;              p1 =           0; break;
            default:
                LEXI_UNREACHABLE(d);
        }
        if (d || *len) {
            buffer[(*len)++] = '0' + static_cast<char>(d);
        }
        kappa--;
''', '''        kappa--;
        const uint32_t scale = static_cast<uint32_t>(POWER10[kappa]);
        const uint32_t d = p1 / scale;
        p1 -= d * scale;
        if (*len != 0 || d != 0) {
            buffer[*len] = static_cast<char>(d + '0');
            ++*len;
        }
'''),
 (D, '''    while (rest < wp_w && delta - rest >= ten_kappa &&
           (rest + ten_kappa < wp_w ||  /// closer
            wp_w - rest > rest + ten_kappa - wp_w)) {
        buffer[len - 1]--;
        rest += ten_kappa;
    }''', '''    char &digit = buffer[len - 1];
    for (;;) {
        if (rest >= wp_w || delta - rest < ten_kappa) {
            break;
        }
        const uint64_t next = rest + ten_kappa;
        if (next >= wp_w && wp_w - rest <= next - wp_w) {
            break;
        }
        digit--;
        rest = next;
    }'''),
 (D, '''        for (int i = length; i < kk; i++) {
            buffer[i] = '0';
        }
        buffer[kk] = '.';
        buffer[kk + 1] = '0';
        buffer[kk + 2] = '\\0';
        return &buffer[kk + 2];''', '''        char *p = std::fill_n(buffer + length, kk - length, '0');
        *p++ = '.';
        *p++ = '0';
        *p = '\\0';
        return p;'''),
 (D, '''        const int offset = 2 - kk;
        memmove(&buffer[offset], &buffer[0], length);
        buffer[0] = '0';
        buffer[1] = '.';
        for (int i = 2; i < offset; i++) {
            buffer[i] = '0';
        }
        buffer[length + offset] = '\\0';
        return &buffer[length + offset];''', '''        const int offset = 2 - kk;
        char *end = std::copy_backward(buffer, buffer + length, buffer + length + offset) + length;
        std::fill(buffer, buffer + offset, '0');
        buffer[1] = '.';
        *end = '\\0';
        return end;'''),
 (D, '''        memmove(&buffer[2], &buffer[1], length - 1);
        buffer[1] = '.';
''', '''        for (int i = length; i > 1; i--) {
            buffer[i] = buffer[i - 1];
        }
        buffer[1] = '.';
'''),
 (D, '''namespace lexi
{
namespace detail
{''', '''#include <algorithm>


namespace lexi
{
namespace detail
{'''),
 (Y, '''    BitwiseDouble u = {d};

    int biased_e = (u.u64 & EXPONENT_MASK) >> DP_SIGNIFICAND_SIZE;
    uint64_t significand = (u.u64 & SIGNIFICAND_MASK);
    if (biased_e != 0) {
        f = significand + HIDDEN_BIT;
        e = biased_e - DP_EXPONENT_BIAS;
    }
    else {
        f = significand;
        e = DP_MIN_EXPONENT + 1;
    }''', '''    const BitwiseDouble u = {d};
    const int biased_e = static_cast<int>((u.u64 >> DP_SIGNIFICAND_SIZE) & 0x7FF);
    const bool denormal = biased_e == 0;
    f = (u.u64 & SIGNIFICAND_MASK) | (denormal ? 0 : HIDDEN_BIT);
    e = std::max(biased_e, 1) - DP_EXPONENT_BIAS;'''),
 (Y, '''#include <cmath>
''', '''#include <algorithm>
#include <cmath>
'''),
 (Y, '''        DiyFp res = diyfp;
        while (!(res.f & (HIDDEN_BIT << 1))) {
            res.f <<= 1;
            res.e--;
        }
        res.f <<= (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        res.e = res.e - (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        return res;''', '''        uint64_t fraction = diyfp.f;
        int exponent = diyfp.e;
        while ((fraction >> 63) == 0) {
            fraction += fraction;
            --exponent;
        }
        return DiyFp(fraction, exponent);'''),
 (S, '''#include "lexi/detail/string.hpp"
''', '''#include "lexi/detail/string.hpp"

#include <cctype>
'''),
 (S, '''    for (const char c: src) {
        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @
            (c >= 91 && c <= 96) ||     // [ - `]
            (c >= 123 && c <= 126)) {   // ( - ~
            dst.push_back('\\\\');
        }
        dst.push_back(c);
    }
''', '''    for (std::string::const_iterator it = src.begin(); it != src.end(); ++it) {
        const unsigned char c = static_cast<unsigned char>(*it);
        const bool digit = c >= '0' && c <= '9';
        const bool upper = c >= 'A' && c <= 'Z';
        const bool lower = c >= 'a' && c <= 'z';
        if (c < 127 && !digit && !upper && !lower) {
            dst += '\\\\';
        }
        dst += *it;
    }
'''),
 (S, '''        switch (c) {
            //case '\\0':
            case '\\b':
                dst.push_back('\\\\');
                dst.push_back('b');
                break;
            case '\\f':
                dst.push_back('\\\\');
                dst.push_back('f');
                break;
            case '\\n':
                dst.push_back('\\\\');
                dst.push_back('n');
                break;
            case '\\r':
                dst.push_back('\\\\');
                dst.push_back('r');
                break;
            case '\\t':
                dst.push_back('\\\\');
                dst.push_back('t');
                break;
            case '\\\\':
                dst.push_back('\\\\');
                dst.push_back('\\\\');
                break;
            case '"':
                dst.push_back('\\\\');
                dst.push_back('"');
                break;
            default:
                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);
                } else {
                    dst.push_back(c);
                }
        }
''', '''        static const char *const plain = "\\b\\f\\n\\r\\t\\\\\\"";
        static const char *const letter = "bfnrt\\\\\\"";
        bool done = false;
        for (int i = 0; i < 7; i++) {
            if (c == plain[i]) {
                const char pair[] = {'\\\\', letter[i], '\\0'};
                dst += pair;
                done = true;
                break;
            }
        }
        if (done) {
            continue;
        }
        if (static_cast<unsigned char>(c) < 0x20) {
            char code[] = "\\\\u0000";
            code[4] = HEX[c / 16];
            code[5] = HEX[c % 16];
            dst.append(code, 6);
        } else {
            dst += c;
        }
'''),
 (B, '''    if (b) {
        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
        size_ = 4;
    } else {
        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
        size_ = 5;
    }''', '''    size_ = (b ? sizeof(TRUE_STRING) : sizeof(FALSE_STRING)) - 1;
    if (b) {
        std::copy(TRUE_STRING, TRUE_STRING + sizeof(TRUE_STRING), buffer_);
    } else {
        std::copy(FALSE_STRING, FALSE_STRING + sizeof(FALSE_STRING), buffer_);
    }'''),
 (B, '''    if (string == TRUE_STRING) {
        data_ = true;
    } else if (string == FALSE_STRING) {
        data_ = false;
    } else {
        throw std::runtime_error("String is not boolean.");
    }''', '''    if (string != TRUE_STRING && string != FALSE_STRING) {
        throw std::runtime_error("String is not boolean.");
    }
    data_ = string.size() == 4;'''),
 (C, '''    return "\\"" + detail::jsonify(string()) + "\\"";''', '''    std::string json = detail::jsonify(string());
    json.insert(json.begin(), '"');
    json.push_back('"');
    return json;'''),
 (C, '''    LEXI_ASSERT(!string.empty(), "Cannot extract character from empty string.");
    c = string.front();''', '''    if (string.length() == 0) {
        throw std::runtime_error("Cannot extract character from empty string.");
    }
    c = *string.begin();'''),
 (F, '''void FormatFloat::format(long double value)
{
    first = buffer_;
    last = buffer_;
    if (!detail::isFinite(value)) {''', '''void FormatFloat::format(long double wide)
{
    const double value = static_cast<double>(wide);
    first = buffer_;
    last = buffer_;
    if (!detail::isFinite(value)) {'''),
 (F, '''    if (this != &other) {
        first = buffer_;
        last = buffer_ + other.size();
        memcpy(buffer_, other.buffer_, other.size() + 1);
    }
    return *this;''', '''    const size_t length = other.size();
    memmove(buffer_, other.buffer_, length + 1);
    first = buffer_;
    last = first + length;
    return *this;'''),
 (I, '''    if (this != &other) {
        first = buffer_;
        last = buffer_ + other.size();
        memcpy(buffer_, other.buffer_, other.size() + 1);
    }
    return *this;''', '''    if (&other == this) {
        return *this;
    }
    const FormatInt copy(other);
    std::copy(copy.first, copy.last + 1, buffer_);
    first = buffer_;
    last = buffer_ + copy.length();
    return *this;'''),
 (I, '''FormatInt::FormatInt(short value)
{
    first = buffer_;
    last = detail::i32toa(value, buffer_);
    *last = '\\0';
}''', '''FormatInt::FormatInt(short value):
    FormatInt(static_cast<int>(value))
{}'''),
 (I, '''FormatInt::FormatInt(unsigned short value)
{
    first = buffer_;
    last = detail::u32toa(value, buffer_);
    *last = '\\0';
}''', '''FormatInt::FormatInt(unsigned short value):
    FormatInt(static_cast<unsigned int>(value))
{}'''),
 (I, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (B, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (I, '''    data_ = std::strtoull(string.data(), nullptr, 10);''', '''    const char *first = string.c_str();
    char *last = nullptr;
    data_ = std::strtoull(first, &last, 10);
    (void) last;'''),
 (G, '''    uint64_t backup = digits_[0];
    digits_[0] += digit;
    for (size_t i = 0; i < count_ - 1; i++) {
        if (digits_[i] >= backup) {
            return *this; // no carry
        }
        backup = digits_[i + 1];
        digits_[i + 1] += 1;
    }

    // Last carry
    if (digits_[count_ - 1] < backup) {
        push_back(1);
    }

    return *this;''', '''    uint64_t carry = digit;
    for (size_t i = 0; carry != 0; i++) {
        if (i == count_) {
            push_back(carry);
            break;
        }
        digits_[i] += carry;
        carry = digits_[i] < carry ? 1 : 0;
    }

    return *this;'''),
 (G, '''    memcpy(digits_, other.digits_, count_ * sizeof(uint64_t));
}


/** \\brief Copy assignment operator.''', '''    std::copy(other.digits_, other.digits_ + other.count_, digits_);
}


/** \\brief Copy assignment operator.'''),
 (G, '''#include <cstring>
''', '''#include <algorithm>
#include <cstring>
'''),
 (G, '''    return count_ == other.count_ && memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;''', '''    return count_ == other.count_ && std::equal(digits_, digits_ + count_, other.digits_);'''),
 (G, '''        uint64_t d = digit - borrow;
        borrow = (d > digit) ? 1 : 0;
        if (i < b->count_) {
            const uint64_t tmp = d;
            d -= b->digits_[i];
            borrow |= (d > tmp) ? 1 : 0;
        }
''', '''        const uint64_t subtrahend = i < b->count_ ? b->digits_[i] : 0;
        const uint64_t d = digit - subtrahend - borrow;
        borrow = (digit < subtrahend || (digit == subtrahend && borrow != 0)) ? 1 : 0;
'''),
 (G, '''    const BigInteger *a, *b;  // Makes a > b
    bool ret;
    if (cmp < 0) {
        a = &other; b = this;
        ret = true;
    } else {
        a = this; b = &other;
        ret = false;
    }
''', '''    const bool ret = cmp < 0;
    const BigInteger *a = this, *b = &other;
    if (ret) {
        std::swap(a, b);  // Makes a > b
    }
'''),
 (G, '''    uint64_t r = 0;
    for (const char *p = first; p != last; ++p) {
        LEXI_ASSERT(*p >= '0' && *p <= '9', "Character is not from 0-9.");
        r = r * 10u + static_cast<unsigned>(*p - '0');
    }
    return r;''', '''    uint64_t r = 0;
    while (first != last) {
        const unsigned char c = static_cast<unsigned char>(*first++);
        const unsigned value = c - static_cast<unsigned>('0');
        LEXI_ASSERT(value <= 9, "Character is not from 0-9.");
        r *= 10;
        r += value;
    }
    return r;'''),
 (G, '''    size_t i = 0;
    while (length >= DIGITS_ITERATION) {
        add(decimals + i, decimals + i + DIGITS_ITERATION);
        length -= DIGITS_ITERATION;
        i += DIGITS_ITERATION;
    }

    if (length > 0) {
        add(decimals + i, decimals + i + length);
    }''', '''    const char *last = decimals + length;
    while (decimals != last) {
        const size_t left = static_cast<size_t>(last - decimals);
        const size_t step = left < DIGITS_ITERATION ? left : DIGITS_ITERATION;
        add(decimals, decimals + step);
        decimals += step;
    }'''),
 (E, '''    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) == 0);''', '''    return (u.u64 & ~SIGN_MASK) == INFINITY;'''),
 (E, '''    return (u.u64 & SIGN_MASK) == 0;''', '''    return (u.u64 >> 63) == 0;'''),
]

TY, BO, NU, CH, DF = 'include/lexi/detail/type.hpp', 'include/lexi/bool.hpp', 'include/lexi/null.hpp', 'include/lexi/char.hpp', 'include/lexi/detail/define.hpp'
PASSES['i'] = [
 (IH, '''    char buffer_[detail::INTEGER_SIZE];
    char *first;
    char *last;
''', '''    char buffer_[detail::INTEGER_SIZE];
    unsigned char size_;

    void finish(const char *last);
'''),
 ('re:' + I, r'''    first = buffer_;\n\n?((?:    #.*\n|    +//.*\n|    +last = .*\n)+)\n?    \*last = '\\0';\n''', r'''    char *last;
\1    finish(last);
'''),
 (I, '''    first(buffer_),
    last(buffer_ + other.size())
{
    memcpy(buffer_, other.buffer_, other.size() + 1);
}''', '''    size_(other.size_)
{
    memcpy(buffer_, other.buffer_, size_ + 1u);
}


void FormatInt::finish(const char *last)
{
    size_ = static_cast<unsigned char>(last - buffer_);
    buffer_[size_] = '\\0';
}'''),
 (I, '''    if (this != &other) {
        first = buffer_;
        last = buffer_ + other.size();
        memcpy(buffer_, other.buffer_, other.size() + 1);
    }
    return *this;''', '''    if (this != &other) {
        size_ = other.size_;
        memcpy(buffer_, other.buffer_, other.size_ + 1u);
    }
    return *this;'''),
 (I, '''    return last - first;''', '''    return size_;'''),
 (I, '''const char * FormatInt::c_str() const
{
    return first;''', '''const char * FormatInt::c_str() const
{
    return buffer_;'''),
 (BO, '''    char buffer_[6];
    size_t size_;
''', '''    bool value_;
'''),
 (B, '''    if (b) {
        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
        size_ = 4;
    } else {
        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
        size_ = 5;
    }''', '''    value_ = b;'''),
 (B, '''    return size_;''', '''    return value_ ? sizeof(TRUE_STRING) - 1 : sizeof(FALSE_STRING) - 1;'''),
 (B, '''    return buffer_;''', '''    return value_ ? TRUE_STRING : FALSE_STRING;'''),
 (NU, '''    char buffer_[5];
''', '''    const char *text_;
'''),
 ('re:' + N, r'''strncpy\(buffer_, NULL_STRING, sizeof\(NULL_STRING\)\)''', '''text_ = NULL_STRING'''),
 (N, '''    return 4;''', '''    return sizeof(NULL_STRING) - 1;'''),
 (N, '''    return buffer_;''', '''    return text_;'''),
 (CH, '''    char buffer_[2];
''', '''    char buffer_[2] = {'\\0', '\\0'};
'''),
 ('re:' + C, r'''    buffer_\[1\] = '\\0';\n''', ''''''),
 (TY, '''template <typename T>
struct is_integer: std::false_type
{};

template <>
struct is_integer<signed char>: std::true_type
{};

template <>
struct is_integer<unsigned char>: std::true_type
{};

template <>
struct is_integer<short>: std::true_type
{};

template <>
struct is_integer<unsigned short>: std::true_type
{};

template <>
struct is_integer<int>: std::true_type
{};

template <>
struct is_integer<unsigned int>: std::true_type
{};

template <>
struct is_integer<long>: std::true_type
{};

template <>
struct is_integer<unsigned long>: std::true_type
{};

template <>
struct is_integer<long long>: std::true_type
{};

template <>
struct is_integer<unsigned long long>: std::true_type
{};
''', '''template <typename T, typename... Ts>
struct is_one_of: std::false_type
{};

template <typename T, typename U, typename... Ts>
struct is_one_of<T, U, Ts...>: std::integral_constant<bool, std::is_same<T, U>::value || is_one_of<T, Ts...>::value>
{};

template <typename T>
struct is_integer: is_one_of<T, signed char, unsigned char, short, unsigned short, int, unsigned int,
    long, unsigned long, long long, unsigned long long>
{};
'''),
 (TY, '''template <typename T>
struct is_float: std::false_type
{};

template <>
struct is_float<float>: std::true_type
{};

template <>
struct is_float<double>: std::true_type
{};

template <>
struct is_float<long double>: std::true_type
{};
''', '''template <typename T>
struct is_float: is_one_of<T, float, double, long double>
{};
'''),
 (L, '''        return T(std::streamoff(ExtractInt(string)));''', '''        const ExtractInt extracted(string);
        const auto offset = static_cast<std::streamoff>(extracted);
        return static_cast<T>(offset);'''),
 (L, '''        return T(ExtractInt(string));''', '''        const ExtractInt value(string);
        return static_cast<T>(value);'''),
 (L, '''/** \\brief Extract value from string literal.
 */
template <typename T>
T lexi(const char *string, enable_if_t<!is_string_v<T>, T>* = nullptr)
{
    return Extract<T>()(string);
}''', '''/** \\brief Extract value from string literal.
 */
template <typename T>
T lexi(const char *string, enable_if_t<!is_string_v<T>, T>* = nullptr)
{
    const std::string text(string);
    return lexi<T>(text);
}'''),
 (L, '''template <typename T>
std::string jsonify(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)
{
    return "\\"" + detail::jsonify(string) + "\\"";
}''', '''template <typename T>
std::string jsonify(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)
{
    std::string quoted;
    const std::string body = detail::jsonify(string);
    quoted.reserve(body.size() + 2);
    quoted.push_back('"');
    quoted.append(body);
    quoted.push_back('"');
    return quoted;
}'''),
 (EN, '''    return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(data_));''', '''    const auto raw = static_cast<underlying_type_t<Enum>>(data_);
    return Enum(raw);'''),
 (FH, '''    float float_;
    double double_;
    long double data_;
''', '''    std::string text_;
'''),
 (F, '''    float_ = std::strtof(string.data(), nullptr);
    double_ = std::strtod(string.data(), nullptr);
    data_ = std::strtold(string.data(), nullptr);
''', '''    text_ = string;
'''),
 (F, '''    return float_;''', '''    return std::strtof(text_.c_str(), nullptr);'''),
 (F, '''    return double_;''', '''    return std::strtod(text_.c_str(), nullptr);'''),
 (F, '''    return data_;''', '''    return std::strtold(text_.c_str(), nullptr);'''),
 (F, '''            strncpy(first, NAN_STRING, sizeof(NAN_STRING));
            last += sizeof(NAN_STRING) - 1;''', '''            last = write(buffer_, NAN_STRING);'''),
 (F, '''            strncpy(first, INFINITY_STRING, sizeof(INFINITY_STRING));
            last += sizeof(INFINITY_STRING) - 1;''', '''            last = write(buffer_, INFINITY_STRING);'''),
 (F, '''            strncpy(first, NEGATIVE_INFINITY_STRING, sizeof(NEGATIVE_INFINITY_STRING));
            last += sizeof(NEGATIVE_INFINITY_STRING) - 1;''', '''            last = write(buffer_, NEGATIVE_INFINITY_STRING);'''),
 (F, '''// OBJECTS
// -------
''', '''template <size_t N>
static char * write(char *dst, const char (&literal)[N])
{
    memcpy(dst, literal, N);
    return dst + N - 1;
}

// OBJECTS
// -------
'''),
 (D, '''char * dtoa(double value,
    char *buffer)
{
    if (value == 0) {
        *buffer++ = '0';
        *buffer++ = '.';
        *buffer++ = '0';
        *buffer = '\\0';
    } else {
        if (value < 0) {
            *buffer++ = '-';
            value = -value;
        }
        int length, k;
        grisu2(value, buffer, &length, &k);
        buffer = prettify(buffer, length, k);
    }

    return buffer;''', '''char * dtoa(double value,
    char *buffer)
{
    if (value == 0) {
        memcpy(buffer, "0.0", 4);
        return buffer + 3;
    }
    const bool negative = value < 0;
    const double magnitude = negative ? -value : value;
    if (negative) {
        *buffer++ = '-';
    }
    int length = 0;
    int k = 0;
    grisu2(magnitude, buffer, &length, &k);
    return prettify(buffer, length, k);'''),
 (D, '''    double dk = (-61 - e) * 0.30102999566398114 + 347;
    // dk must be positive, so can do ceiling in positive
    int kk = static_cast<int>(dk);
    if (kk != dk) {
        kk++;
    }
''', '''    const double dk = (-61 - e) * 0.30102999566398114 + 347;
    // dk must be positive, so can do ceiling in positive
    const int truncated = static_cast<int>(dk);
    const int kk = truncated + (static_cast<double>(truncated) < dk ? 1 : 0);
'''),
 (D, '''    const DiyFp one(uint64_t(1) << -Mp.e, Mp.e);
    const DiyFp wp_w = Mp - W;
    uint32_t p1 = static_cast<uint32_t>(Mp.f >> -one.e);
    uint64_t p2 = Mp.f & (one.f - 1);''', '''    const int shift = -Mp.e;
    const DiyFp one(uint64_t(1) << shift, Mp.e);
    const DiyFp wp_w(Mp.f - W.f, Mp.e);
    uint32_t p1 = static_cast<uint32_t>(Mp.f / one.f);
    uint64_t p2 = Mp.f % one.f;'''),
 (D, '''        p2 *= 10;
        delta *= 10;
        char d = static_cast<char>(p2 >> -one.e);
        if (d || *len) {
            buffer[(*len)++] = '0' + d;
        }
        p2 &= one.f - 1;
        kappa--;
        if (p2 < delta) {''', '''        delta *= 10;
        p2 *= 10;
        const unsigned d = static_cast<unsigned>(p2 >> shift);
        p2 -= static_cast<uint64_t>(d) << shift;
        if (*len > 0 || d > 0) {
            buffer[*len] = static_cast<char>('0' + d);
            *len += 1;
        }
        --kappa;
        if (delta > p2) {'''),
 (P, '''namespace lexi''', '''#include <cstddef>

namespace lexi'''),
 (G, '''    for (size_t i = 0; i < count_; i++) {
        const uint64_t c = digits_[i] >> 32;
        const uint64_t d = digits_[i] & 0xFFFFFFFF;
        const uint64_t uc = digit * c;
        const uint64_t ud = digit * d;
        const uint64_t p0 = ud + k;
        const uint64_t p1 = uc + (p0 >> 32);
        digits_[i] = (p0 & 0xFFFFFFFF) | (p1 << 32);
        k = p1 >> 32;
    }
''', '''    for (size_t i = 0; i < count_; i++) {
        uint64_t hi;
        digits_[i] = mulAdd(digits_[i], digit, k, &hi);
        k = hi;
    }
'''),
 (G, '''    if (interShift == 0) {
        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
        count_ += offset;
    }
    else {''', '''    if (interShift == 0) {
        for (size_t i = count_; i > 0; i--) {
            digits_[i - 1 + offset] = digits_[i - 1];
        }
        count_ += offset;
    }
    else {'''),
 (G, '''    memset(digits_, 0, offset * sizeof(uint64_t));
''', '''    for (size_t i = 0; i < offset; i++) {
        digits_[i] = 0;
    }
'''),
 (G, '''    for (size_t i = count_; i-- > 0;)
        if (digits_[i] != other.digits_[i]) {
            return digits_[i] < other.digits_[i] ? -1 : 1;
        }

    return 0;''', '''    size_t i = count_;
    while (i > 0 && digits_[i - 1] == other.digits_[i - 1]) {
        i--;
    }
    if (i == 0) {
        return 0;
    }
    return digits_[i - 1] < other.digits_[i - 1] ? -1 : 1;'''),
 (G, '''    if (digit == 0) {
        return *this = 0;
    } else if (digit == 1) {
        return *this;
    } else if (*this == 1) {
        return *this = digit;
    }

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        uint64_t hi;''', '''    if (digit == 0 || isZero()) {
        return *this = 0;
    }

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        uint64_t hi;'''),
 (G, '''        if (d != 0) {
            out->count_ = i + 1;
        }
    }

    return ret;''', '''    }
    size_t top = a->count_;
    while (top > 1 && out->digits_[top - 1] == 0) {
        top--;
    }
    out->count_ = top;

    return ret;'''),
 (G, '''    for (; exponent >= 27; exponent -= 27) {
        *this *= static_cast<uint64_t>(0X6765C793FA10079DULL);  // 5^27
    }
    for (; exponent >= 13; exponent -= 13) {
        *this *= static_cast<uint32_t>(1220703125u);            // 5^13
    }
    if (exponent > 0) {
        *this *= POWER5[exponent - 1];
    }''', '''    const unsigned int blocks = exponent / 27;
    for (unsigned int i = 0; i < blocks; i++) {
        *this *= static_cast<uint64_t>(0X6765C793FA10079DULL);  // 5^27
    }
    unsigned int rest = exponent % 27;
    while (rest > 0) {
        const unsigned int step = rest > 12 ? 12 : rest;
        *this *= POWER5[step - 1];
        rest -= step;
    }'''),
 (G, '''    size_t i = 0;
    while (length >= DIGITS_ITERATION) {
        add(decimals + i, decimals + i + DIGITS_ITERATION);
        length -= DIGITS_ITERATION;
        i += DIGITS_ITERATION;
    }

    if (length > 0) {
        add(decimals + i, decimals + i + length);
    }''', '''    const size_t blocks = length / DIGITS_ITERATION;
    for (size_t i = 0; i < blocks; i++) {
        const char *first = decimals + i * DIGITS_ITERATION;
        add(first, first + DIGITS_ITERATION);
    }
    const size_t done = blocks * DIGITS_ITERATION;
    if (done != length) {
        add(decimals + done, decimals + length);
    }'''),
]

PASSES['j'] = [
 (S, '''    for (const char c: src) {
        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @
            (c >= 91 && c <= 96) ||     // [ - `]
            (c >= 123 && c <= 126)) {   // ( - ~
            dst.push_back('\\\\');
        }
        dst.push_back(c);
    }
''', '''    const auto plain = [](unsigned char c) {
        return c > 126 || (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z');
    };
    std::for_each(src.begin(), src.end(), [&](char c) {
        if (!plain(static_cast<unsigned char>(c))) {
            dst += '\\\\';
        }
        dst += c;
    });
'''),
 (S, '#include "lexi/detail/string.hpp"', '#include "lexi/detail/string.hpp"\n\n#include <algorithm>\n#include <cstring>'),
 (S, '''        switch (c) {
            //case '\\0':
            case '\\b':
                dst.push_back('\\\\');
                dst.push_back('b');
                break;
            case '\\f':
                dst.push_back('\\\\');
                dst.push_back('f');
                break;
            case '\\n':
                dst.push_back('\\\\');
                dst.push_back('n');
                break;
            case '\\r':
                dst.push_back('\\\\');
                dst.push_back('r');
                break;
            case '\\t':
                dst.push_back('\\\\');
                dst.push_back('t');
                break;
            case '\\\\':
                dst.push_back('\\\\');
                dst.push_back('\\\\');
                break;
            case '"':
                dst.push_back('\\\\');
                dst.push_back('"');
                break;
            default:
                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);
                } else {
                    dst.push_back(c);
                }
        }
''', '''        char letter = 0;
        if (c == '\\b') letter = 'b';
        else if (c == '\\f') letter = 'f';
        else if (c == '\\n') letter = 'n';
        else if (c == '\\r') letter = 'r';
        else if (c == '\\t') letter = 't';
        else if (c == '\\\\' || c == '"') letter = c;

        if (letter != 0) {
            const char pair[] = { '\\\\', letter };
            dst.append(pair, sizeof(pair));
            continue;
        }
        if (static_cast<unsigned char>(c) > 0x1f) {
            dst += c;
            continue;
        }
        char code[] = "\\\\u0000";
        code[4] = HEX[c / 16];
        code[5] = HEX[c % 16];
        dst += code;
'''),
 (G, '''    uint64_t r = 0;
    for (const char *p = first; p != last; ++p) {
        LEXI_ASSERT(*p >= '0' && *p <= '9', "Character is not from 0-9.");
        r = r * 10u + static_cast<unsigned>(*p - '0');
    }
    return r;
''', '''    return std::accumulate(first, last, uint64_t(0), [](uint64_t r, char c) {
        LEXI_ASSERT(c >= '0' && c <= '9', "Character is not from 0-9.");
        return 10u * r + static_cast<uint64_t>(c - '0');
    });
'''),
 (G, '#include <cstring>\n', '#include <algorithm>\n#include <cstring>\n#include <numeric>\n'),
 (G, '''    uint64_t backup = digits_[0];
    digits_[0] += digit;
    for (size_t i = 0; i < count_ - 1; i++) {
        if (digits_[i] >= backup) {
            return *this; // no carry
        }
        backup = digits_[i + 1];
        digits_[i + 1] += 1;
    }

    // Last carry
    if (digits_[count_ - 1] < backup) {
        push_back(1);
    }

    return *this;
''', '''    uint64_t carry = digit;
    for (size_t i = 0; carry != 0 && i < count_; ++i) {
        const uint64_t sum = digits_[i] + carry;
        carry = sum < carry;
        digits_[i] = sum;
    }
    if (carry != 0) {
        push_back(carry);
    }
    return *this;
'''),
 (G, '''    return count_ == other.count_ && memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;
''', '''    return count_ == other.count_ && std::equal(digits_, digits_ + count_, other.digits_);
'''),
 (G, '''        uint64_t d = digit - borrow;
        borrow = (d > digit) ? 1 : 0;
        if (i < b->count_) {
            const uint64_t tmp = d;
            d -= b->digits_[i];
            borrow |= (d > tmp) ? 1 : 0;
        }
''', '''        const uint64_t sub = i < b->count_ ? b->digits_[i] : 0;
        const uint64_t d = digit - sub - borrow;
        borrow = (digit < sub || (digit == sub && borrow != 0)) ? 1 : 0;
'''),
 (G, '''    for (size_t i = count_; i-- > 0;)
        if (digits_[i] != other.digits_[i]) {
            return digits_[i] < other.digits_[i] ? -1 : 1;
        }

    return 0;
''', '''    const uint64_t *x = digits_ + count_;
    const uint64_t *y = other.digits_ + count_;
    while (x != digits_) {
        --x;
        --y;
        if (*x != *y) {
            return *x > *y ? 1 : -1;
        }
    }
    return 0;
'''),
 (G, '''        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
        count_ += offset;
''', '''        std::copy_backward(digits_, digits_ + count_, digits_ + count_ + offset);
        count_ += offset;
'''),
 (G, '''    memset(digits_, 0, offset * sizeof(uint64_t));
''', '''    std::fill_n(digits_, offset, uint64_t(0));
'''),
 (G, '''    while (length >= DIGITS_ITERATION) {
        add(decimals + i, decimals + i + DIGITS_ITERATION);
        length -= DIGITS_ITERATION;
        i += DIGITS_ITERATION;
    }

    if (length > 0) {
        add(decimals + i, decimals + i + length);
    }
''', '''    while (i < length) {
        const size_t block = std::min(length - i, size_t(19));
        add(decimals + i, decimals + i + block);
        i += block;
    }
'''),
 (E, '''    BitwiseDouble u = {number};
    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) != 0);''', '''    BitwiseDouble u = {number};
    return (u.u64 << 1) > (INFINITY << 1);'''),
 (E, '''    BitwiseDouble u = {number};
    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) == 0);''', '''    return isInfinity(number) || isNegativeInfinity(number);'''),
 (E, '''    return (u.u64 & SIGN_MASK) == 0;''', '''    return static_cast<int64_t>(u.u64) >= 0;'''),
 (E, '''    return (u.u64 & EXPONENT_MASK) != EXPONENT_MASK;''', '''    return ((u.u64 >> 52) & 0x7FF) != 0x7FF;'''),
 (E, '''    return (u.u64 & (EXPONENT_MASK | SIGNIFICAND_MASK)) == 0;''', '''    return number == 0;'''),
 (D, '''    while (rest < wp_w && delta - rest >= ten_kappa &&
           (rest + ten_kappa < wp_w ||  /// closer
            wp_w - rest > rest + ten_kappa - wp_w)) {
        buffer[len - 1]--;
        rest += ten_kappa;
    }''', '''    for (; rest < wp_w; rest += ten_kappa) {
        if (delta - rest < ten_kappa) {
            return;
        }
        const uint64_t next = rest + ten_kappa;
        if (next >= wp_w && wp_w - rest <= next - wp_w) {
            return;
        }
        --buffer[len - 1];
    }'''),
 (D, '''        if (value < 0) {
            *buffer++ = '-';
            value = -value;
        }
        int length, k;''', '''        if (!isPositive(value)) {
            *buffer++ = '-';
            value = std::fabs(value);
        }
        int length = 0;
        int k = 0;'''),
 (D, '#include "lexi/detail/dtoa.hpp"', '#include "lexi/detail/dtoa.hpp"\n#include "lexi/detail/ieee754.hpp"\n#include <cmath>'),
 (Y, '''    BitwiseDouble u = {d};

    int biased_e = (u.u64 & EXPONENT_MASK) >> DP_SIGNIFICAND_SIZE;
    uint64_t significand = (u.u64 & SIGNIFICAND_MASK);
    if (biased_e != 0) {
        f = significand + HIDDEN_BIT;
        e = biased_e - DP_EXPONENT_BIAS;
    }
    else {
        f = significand;
        e = DP_MIN_EXPONENT + 1;
    }
''', '''    BitwiseDouble u;
    u.d = d;
    f = u.u64 & SIGNIFICAND_MASK;
    e = static_cast<int>((u.u64 >> DP_SIGNIFICAND_SIZE) & 0x7FF);
    if (e == 0) {
        e = 1;
    } else {
        f |= HIDDEN_BIT;
    }
    e -= DP_EXPONENT_BIAS;
'''),
 (Y, '''        DiyFp res = diyfp;
        while (!(res.f & (HIDDEN_BIT << 1))) {
            res.f <<= 1;
            res.e--;
        }
        res.f <<= (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        res.e = res.e - (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        return res;
''', '''        uint64_t f = diyfp.f;
        int e = diyfp.e;
        for (; (f >> 63) == 0; e--) {
            f += f;
        }
        return DiyFp(f, e);
'''),
 (B, '''    if (string == TRUE_STRING) {
        data_ = true;
    } else if (string == FALSE_STRING) {
        data_ = false;
    } else {
        throw std::runtime_error("String is not boolean.");
    }
''', '''    data_ = string == TRUE_STRING;
    if (!data_ && string != FALSE_STRING) {
        throw std::runtime_error("String is not boolean.");
    }
'''),
 (F, '''        if (detail::isNan(value)) {
            strncpy(first, NAN_STRING, sizeof(NAN_STRING));
            last += sizeof(NAN_STRING) - 1;
        } else if (detail::isInfinity(value)) {
            strncpy(first, INFINITY_STRING, sizeof(INFINITY_STRING));
            last += sizeof(INFINITY_STRING) - 1;
        } else {
            strncpy(first, NEGATIVE_INFINITY_STRING, sizeof(NEGATIVE_INFINITY_STRING));
            last += sizeof(NEGATIVE_INFINITY_STRING) - 1;
        }
''', '''        const char *text = detail::isNan(value) ? NAN_STRING :
            detail::isPositive(value) ? INFINITY_STRING : NEGATIVE_INFINITY_STRING;
        const size_t size = strlen(text);
        memcpy(first, text, size + 1);
        last = first + size;
'''),
]


PASSES['k'] = [
 (S, '        switch (c) {\n            //case \'\\0\':\n            case \'\\b\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'b\');\n                break;\n            case \'\\f\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'f\');\n                break;\n            case \'\\n\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'n\');\n                break;\n            case \'\\r\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'r\');\n                break;\n            case \'\\t\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'t\');\n                break;\n            case \'\\\\\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'\\\\\');\n                break;\n            case \'"\':\n                dst.push_back(\'\\\\\');\n                dst.push_back(\'"\');\n                break;\n            default:\n                if (c >= 0x00 && c <= 0x1f) {\n                    dst += "\\\\u00";\n                    dst.push_back(HEX[c >> 4]);\n                    dst.push_back(HEX[c & 0x0f]);\n                } else {\n                    dst.push_back(c);\n                }\n        }\n    }\n\n',
  '        static const char FROM[] = "\\b\\f\\n\\r\\t\\\\\\"";\n        static const char TO[] = "bfnrt\\\\\\"";\n        const char *p = c != 0 ? std::strchr(FROM, c) : nullptr;\n        if (p != nullptr) {\n            dst.push_back(\'\\\\\');\n            dst.push_back(TO[p - FROM]);\n        } else if (c >= 0x00 && c <= 0x1f) {\n            dst += "\\\\u00";\n            dst.push_back(HEX[c >> 4]);\n            dst.push_back(HEX[c & 0x0f]);\n        } else {\n            dst.push_back(c);\n        }\n    }\n\n'),
 (S, '#include "lexi/detail/string.hpp"',
  '#include "lexi/detail/string.hpp"\n#include <cstring>'),
 (S, '        if ((c >= 0 && c <= 47) ||      // Null - /\n            (c >= 58 && c <= 64) ||     // : - @\n            (c >= 91 && c <= 96) ||     // [ - `]\n            (c >= 123 && c <= 126)) {   // ( - ~\n',
  '        static const std::string KEEP = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\\x7f";\n        if (c >= 0 && KEEP.find(c) == std::string::npos) {\n'),
 (T, '    } else if (value < TEN16) {\n        const uint32_t v0 = static_cast<uint32_t>(value / TEN8);\n        const uint32_t v1 = static_cast<uint32_t>(value % TEN8);\n\n        const uint32_t b0 = v0 / 10000;\n        const uint32_t c0 = v0 % 10000;\n',
  '    } else if (value < TEN16) {\n        const uint32_t v0 = static_cast<uint32_t>(value / TEN8);\n        const uint32_t v1 = static_cast<uint32_t>(value % TEN8);\n\n        const uint32_t b0 = static_cast<uint32_t>((static_cast<uint64_t>(v0) * 109951163) >> 40);\n        const uint32_t c0 = v0 - b0 * 10000;\n'),
 (T, '        const uint32_t d1 = (value / 100) << 1;\n        const uint32_t d2 = (value % 100) << 1;\n\n        if (value >= 1000) {',
  '        const uint32_t q = (value * 5243) >> 19;\n        const uint32_t d1 = q << 1;\n        const uint32_t d2 = (value - q * 100) << 1;\n\n        if (value >= 1000) {'),
]


def main():
    import json
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for name in sys.argv[1:] or sorted(PASSES):
        d = tempfile.mkdtemp(prefix='lexi-rf-')
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        for f, old, new in PASSES[name]:
            rx = f.startswith('re:')
            p = d + '/' + f.replace('re:', '')
            t = open(p).read()
            if rx:
                t, k = re.subn(old, new, t)
                if not k:
                    print('PASS', name, 'pattern not found', f, old[:60])
                open(p, 'w').write(t)
                continue
            if old not in t:
                print('PASS', name, 'text not found', f, old[:60])
                continue
            if f == L and t.count(old) > 1:
                t = t.replace(old, new)
            else:
                t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        env = dict(os.environ, LEXI_REPO=d)
        for v in ('gnu', 'clang'):
            r = subprocess.run(['python3-vt', V + '/tools/one.py', '.', v], env=env, capture_output=True, text=True)
            print('== pass', name, v, 'ok', r.stdout.count(' ok '), 'FAIL', r.stdout.count(' FAIL '), r.stderr[-500:])
            keep = False
            for l in r.stdout.split('\n'):
                if not re.match(r'\S', l) or ' FAIL ' in l:
                    if l.strip():
                        print(l[:260])
        sys.stdout.flush()
        if not os.environ.get('KEEP'):
            shutil.rmtree(d)
        else:
            print(d)


if __name__ == '__main__':
    main()
