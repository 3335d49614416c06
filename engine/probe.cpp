// Replays inputs against the real library (built by g++ from /repo) and searches for failing ones.
// usage: probe MODE --case CASE            exit 1 and a FAIL line if the case breaks MODE's property
//        probe MODE SEED SECONDS SHARD NSHARDS [CASE...]   the given cases first, then a search
// GROUP selects what is compiled: 1 public interface, 2 internal functions, 3 big integers.
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <charconv>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <unistd.h>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
#if GROUP == 1
#include "lexi/lexi.hpp"
#elif GROUP == 2
#include "lexi/detail/ieee754.hpp"
#include "lexi/detail/pow.hpp"
#else
#include "lexi/detail/bigint.hpp"
#endif

typedef uint64_t u64;
typedef boost::multiprecision::cpp_int Big;
typedef std::string S;

static u64 rs;
static u64 rnd()
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1DULL;
}
static u64 rnd(u64 n) { return rnd() % n; }

// constants and literals found in the library: values to try, and their neighbours
static std::vector<u64> dictn;
static std::vector<S> dictt;
static u64 gdict()
{
    if (dictn.empty()) return rnd(5000);
    u64 d = dictn[rnd(dictn.size())];
    switch (rnd(8)) { case 0: return d + 1; case 1: return d - 1; case 2: return d + rnd(20); case 3: return d * (1 + rnd(9)); case 4: return d + dictn[rnd(dictn.size())]; default: return d; }
}
static void dictionary()
{
    if (const char *e = getenv("LEXI_DICT")) for (const char *p = e; *p;) { char *q; u64 v = strtoull(p, &q, 10); if (q == p) break; dictn.push_back(v); p = *q ? q + 1 : q; }
    if (const char *e = getenv("LEXI_TEXTS")) {
        S x; bool any = false;
        for (const char *p = e; ; p++) {
            if (*p == ':' || !*p) { if (any) { S o; for (size_t i = 0; i + 1 < x.size(); i += 2) o += char(strtol(x.substr(i, 2).c_str(), 0, 16)); dictt.push_back(o); } x.clear(); any = false; if (!*p) break; }
            else { x += *p; any = true; }
        }
    }
}

// k: I integer (a), D double bits, F float bits, L long double (a mantissa, b sign/exponent), S bytes, B big-integer program
struct Case { char k; u64 a, b; S s; };

static S hex(const S &s)
{
    S o; char t[4];
    for (unsigned char c: s) { snprintf(t, 4, "%02x", c); o += t; }
    return o;
}
static S unhex(const S &h)
{
    S o;
    for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(strtol(h.substr(i, 2).c_str(), 0, 16));
    return o;
}
static S enc(const Case &c)
{
    char t[80];
    switch (c.k) {
        case 'I': snprintf(t, 80, "I:%llu:%llu", (unsigned long long) c.a, (unsigned long long) c.b); return t;
        case 'D': snprintf(t, 80, "D:%016llx:%016llx", (unsigned long long) c.a, (unsigned long long) c.b); return t;
        case 'F': snprintf(t, 80, "F:%08llx", (unsigned long long) c.a); return t;
        case 'L': snprintf(t, 80, "L:%016llx:%llx", (unsigned long long) c.a, (unsigned long long) c.b); return t;
        case 'S': return "S:" + hex(c.s);
        default: return "B:" + c.s;
    }
}
static Case dec(const S &a)
{
    S t = a;
    if (t[0] == '@') {      // too long for an argument: in a file
        t.clear();
        if (FILE *f = fopen(a.c_str() + 1, "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); }
        if (t.size() < 2) exit(3);
    }
    Case c{t[0], 0, 0, ""};
    S r = t.substr(2);
    if (c.k == 'I') { c.a = strtoull(r.c_str(), 0, 10); if (r.find(':') != S::npos) c.b = strtoull(r.c_str() + r.find(':') + 1, 0, 10); }
    else if (c.k == 'F') c.a = strtoull(r.c_str(), 0, 16);
    else if (c.k == 'D') { c.a = strtoull(r.c_str(), 0, 16); if (r.find(':') != S::npos) c.b = strtoull(r.c_str() + r.find(':') + 1, 0, 16); }
    else if (c.k == 'L') { char *e; c.a = strtoull(r.c_str(), &e, 16); c.b = strtoull(e + 1, 0, 16); }
    else if (c.k == 'S') c.s = unhex(r);
    else c.s = r;
    return c;
}

static S err;
static bool bad(const S &m) { err = m; return false; }
static S vis(const S &s)
{
    S o; char t[8];
    for (unsigned char c: s) { if (c >= 32 && c < 127) o += c; else { snprintf(t, 8, "\\x%02x", c); o += t; } }
    return o;
}
static bool same(const S &what, const S &got, const S &want)
{
    if (got == want) return true;
    return bad(what + ": got \"" + vis(got) + "\", expected \"" + vis(want) + "\"");
}

#if GROUP == 1
// ------------------------------------------------------------------ integers
static S dectext(u64 mag, bool neg)
{
    char b[32]; int i = 32;
    do { b[--i] = char('0' + mag % 10); mag /= 10; } while (mag);
    if (neg) b[--i] = '-';
    return S(b + i, 32 - i);
}
template <typename T> static S spec_int(T v)
{
    if (std::is_signed<T>::value && v < 0) return dectext(u64(0) - u64((long long) v), true);
    return dectext(u64(v), false);
}
#define TRY(what, ...) { __VA_ARGS__; }

template <typename T> static bool int01(const char *n, T v)
{
    S w = spec_int(v), N = S(n) + " " + w;
    TRY(N,
        if (!same("lexi(" + N + ")", lexi::lexi(v), w)) return false;
        if (!same("string(" + N + ")", lexi::string(v), w)) return false;
        if (!same("escape(" + N + ")", lexi::escape(v), w)) return false;
        if (!same("jsonify(" + N + ")", lexi::jsonify(v), w)) return false;
        lexi::FormatInt f(v);
        if (!same("FormatInt::c_str " + N, f.c_str(), w)) return false;
        if (!same("FormatInt::string " + N, f.string(), w)) return false;
        if (!same("FormatInt::escape " + N, f.escape(), w)) return false;
        if (!same("FormatInt::jsonify " + N, f.jsonify(), w)) return false;
        if (!same("FormatInt text " + N, S(f.data(), f.size()), w)) return false;
    )
    return true;
}
template <typename T> static bool int02(const char *n, T v)
{
    S w = spec_int(v), N = S(n) + " " + w;
    TRY(N,
        if (lexi::lexi<T>(lexi::lexi(v)) != v) return bad("lexi<" + S(n) + ">(lexi(" + w + ")) differs");
        if (lexi::lexi<T>(lexi::jsonify(v)) != v) return bad("lexi<" + S(n) + ">(jsonify(" + w + ")) differs");
        if (lexi::lexi<T>(w) != v) return bad("lexi<" + S(n) + ">(\"" + w + "\") gives " + spec_int(lexi::lexi<T>(w)));
        if (lexi::lexi<T>(w.c_str()) != v) return bad("lexi<" + S(n) + ">(C string \"" + w + "\") differs");
        if (T(lexi::ExtractInt(w)) != v) return bad("ExtractInt(\"" + w + "\") as " + n + " differs");
    )
    return true;
}
template <typename T> static bool text02(const char *n, const S &t, T want)
{
    TRY(S(n) + " from " + t,
        if (lexi::lexi<T>(t) != want) return bad("lexi<" + S(n) + ">(\"" + t + "\") gives " + spec_int(lexi::lexi<T>(t)) + ", expected " + spec_int(want));
        if (lexi::lexi<T>(t.c_str()) != want) return bad("lexi<" + S(n) + ">(C string \"" + t + "\") differs from " + spec_int(want));
        if (T(lexi::ExtractInt(t)) != want) return bad("ExtractInt(\"" + t + "\") as " + n + " differs from " + spec_int(want));
    )
    return true;
}
template <typename T> static bool int12(const char *n, T v)
{
    enum class E: T {};
    S w = spec_int(v), N = S("enum: ") + n + " " + w;
    E e = E(v);
    TRY(N,
        if (!same("lexi " + N, lexi::lexi(e), w)) return false;
        if (!same("string " + N, lexi::string(e), w)) return false;
        if (!same("escape " + N, lexi::escape(e), w)) return false;
        if (!same("jsonify " + N, lexi::jsonify(e), w)) return false;
        lexi::FormatEnum f(e);
        if (!same("FormatEnum " + N, f.string(), w)) return false;
        if (lexi::lexi<E>(w) != e) return bad("extracting " + N + " differs");
        if (lexi::lexi<E>(w.c_str()) != e) return bad("extracting " + N + " (C string) differs");
        if (lexi::lexi<E>(lexi::lexi(e)) != e) return bad("round trip of " + N + " differs");
        if (E(lexi::ExtractEnum(w)) != e) return bad("ExtractEnum of " + N + " differs");
    )
    return true;
}
#define INTS(F) (F("int8_t", (signed char) x) && F("uint8_t", (unsigned char) x) && F("short", (short) x) && \
    F("unsigned short", (unsigned short) x) && F("int", (int) x) && F("unsigned int", (unsigned) x) && F("long", (long) x) && \
    F("unsigned long", (unsigned long) x) && F("long long", (long long) x) && F("unsigned long long", (unsigned long long) x))

enum Color: int { Red = -7, Green = 0, Blue = 2000000000 };
enum class Big64: unsigned long long { Top = 18446744073709551615ULL };

static bool spos12(u64 x)
{
    std::streamoff o = (std::streamoff) x;
    S w = spec_int(o), N = "streampos " + w;
    TRY(N,
        std::streampos p(o);
        if (!same("lexi " + N, lexi::lexi(p), w)) return false;
        if (!same("string " + N, lexi::string(p), w)) return false;
        if (!same("escape " + N, lexi::escape(p), w)) return false;
        if (!same("jsonify " + N, lexi::jsonify(p), w)) return false;
        if (std::streamoff(lexi::lexi<std::streampos>(w)) != o) return bad("extracting " + N + " differs");
        if (std::streamoff(lexi::lexi<std::streampos>(w.c_str())) != o) return bad("extracting " + N + " (C string) differs");
    )
    return true;
}

// ------------------------------------------------------------------ floats
static double fromBits(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 toBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float fromBits32(u64 b) { uint32_t u = (uint32_t) b; float f; memcpy(&f, &u, 4); return f; }

struct Num { bool ok, neg; S digits; long K; };   // digits without leading or trailing zeros, value digits * 10^K
static Num parse(const S &t)
{
    Num n{false, false, "", 0};
    size_t i = 0;
    if (i < t.size() && t[i] == '-') { n.neg = true; i++; }
    size_t a = i;
    S d; long K = 0;
    while (i < t.size() && isdigit((unsigned char) t[i])) d += t[i++];
    if (i == a) return n;
    if (i - a > 1 && t[a] == '0') return n;
    if (i < t.size() && t[i] == '.') {
        size_t b = ++i;
        while (i < t.size() && isdigit((unsigned char) t[i])) { d += t[i++]; K--; }
        if (i == b) return n;
    }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        i++;
        size_t b = i;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++;
        size_t c = i;
        while (i < t.size() && isdigit((unsigned char) t[i])) i++;
        if (i == c || i - c > 9) return n;
        K += strtol(t.c_str() + b, 0, 10);
    }
    if (i != t.size()) return n;
    size_t z = 0;
    while (z < d.size() && d[z] == '0') z++;
    d = d.substr(z);
    while (!d.empty() && d.back() == '0') { d.pop_back(); K++; }
    n.digits = d; n.K = K; n.ok = true;
    return n;
}
// the one notation for digits * 10^K
static S notation(const Num &n)
{
    const S &d = n.digits;
    long L = (long) d.size(), kk = L + n.K;
    S o = n.neg ? "-" : "";
    if (n.K >= 0 && kk <= 21) return o + d + S(n.K, '0') + ".0";
    if (kk > 0 && kk <= 21) return o + d.substr(0, kk) + "." + d.substr(kk);
    if (kk > -6 && kk <= 0) return o + "0." + S(-kk, '0') + d;
    char e[32]; snprintf(e, 32, "e%ld", kk - 1);
    return o + d.substr(0, 1) + (L > 1 ? "." + d.substr(1) : S()) + e;
}
static S special(double v)
{
    if (v != v) return "NaN";
    if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
    if (v == 0) return "0.0";
    return "";
}
static S show(double v) { char t[64]; snprintf(t, 64, "%.17g (%a)", v, v); return t; }

static bool dbl03(double v)
{
    if (!std::isfinite(v) || v == 0) return true;
    S t;
    TRY(show(v), t = lexi::lexi(v))
    Num n = parse(t);
    if (!n.ok) return bad("text of " + show(v) + " is \"" + vis(t) + "\", not a number");
    double r = strtod(t.c_str(), 0);
    if (r != v) return bad("text of " + show(v) + " is \"" + t + "\", which reads as " + show(r));
    // exactly a midpoint?
    long double ld = strtold(t.c_str(), 0);
    if (ld != (long double) v) {
        double q = std::nextafter(v, ld > v ? INFINITY : -INFINITY);
        long double m;
        if (std::isinf(q)) m = (long double) v + ((long double) v - (long double) std::nextafter(v, 0.0)) / 2;
        else m = ((long double) v + (long double) q) / 2;
        if (m == ld) {
            fesetround(FE_UPWARD); long double up = strtold(t.c_str(), 0);
            fesetround(FE_DOWNWARD); long double dn = strtold(t.c_str(), 0);
            fesetround(FE_TONEAREST);
            if (up == m && dn == m) return bad("text of " + show(v) + " is \"" + t + "\", exactly a midpoint between two doubles");
        }
    }
    return true;
}
static bool dbl05(double v)
{
    if (!std::isfinite(v) || v == 0) return true;
    S t;
    TRY(show(v),
        t = lexi::lexi(v);
        Num n = parse(t);
        if (!n.ok) return bad("text of " + show(v) + " is \"" + vis(t) + "\", not a JSON number");
        if (n.digits.empty() || n.digits.size() > 17) return bad("text of " + show(v) + " is \"" + t + "\": significant digits");
        if (!same("notation of " + show(v), t, notation(n))) return false;
        if (!same("jsonify of " + show(v), lexi::jsonify(v), t)) return false;
        if (!same("escape of " + show(v), lexi::escape(v), t)) return false;
    )
    return true;
}
static Big p10(long n) { return boost::multiprecision::pow(Big(10), (unsigned) n); }
static bool dbl06(double v)
{
    if (!std::isfinite(v) || v == 0) return true;
    v = std::fabs(v);
    S t;
    TRY(show(v), t = lexi::lexi(v))
    Num n = parse(t);
    if (!n.ok || n.digits.empty()) return bad("text of " + show(v) + " is \"" + vis(t) + "\", not a number");
    int L = (int) n.digits.size();
    if (L <= 17) {
        char best[64], sh[64];
        auto r = std::to_chars(sh, sh + 64, v, std::chars_format::scientific);
        *r.ptr = 0;
        Num m = parse(sh);
        snprintf(best, 64, "%.*e", L - 1, v);
        Num b = parse(best);
        if ((int) m.digits.size() == L && b.digits == n.digits && b.K == n.K) return true;
    }
    u64 bits = toBits(v), f = bits & ((1ULL << 52) - 1);
    int be = int(bits >> 52), e = be ? be - 1075 : -1074;
    if (be) f |= 1ULL << 52;
    bool narrow = f == (1ULL << 52) && be > 1;
    Big V = Big(f) * 4, LO = V - (narrow ? 1 : 2), HI = V + 2, X(n.digits), U(1);
    e -= 2;
    if (e >= 0) { V <<= e; LO <<= e; HI <<= e; } else { X <<= -e; U <<= -e; }
    if (n.K >= 0) { X *= p10(n.K); U *= p10(n.K); } else { Big q = p10(-n.K); V *= q; LO *= q; HI *= q; }
    V *= 100; LO *= 100; HI *= 100; X *= 100; U *= 100;
    Big marg = (HI - LO) / 100, lo = LO + marg, hi = HI - marg;
    Big dist = X > V ? Big(X - V) : Big(V - X), tol = V >> 60;
    for (int j = 0; j < 2; j++) {
        Big c = (V / U + j) * U;
        if (c > lo && c < hi) {
            Big d = c > V ? Big(c - V) : Big(V - c);
            if (dist - d > tol) return bad("text of " + show(v) + " is \"" + t + "\", another decimal with as many digits is nearer");
        }
    }
    Big U10 = U * 10, c = hi / U10 * U10;
    if (c > lo && c < hi) return bad("text of " + show(v) + " is \"" + t + "\", a shorter decimal is well inside the rounding interval");
    return true;
}
static bool dbl07(double v)
{
    S t, sp = special(v);
    TRY(show(v),
        t = lexi::lexi(v);
        if (!sp.empty()) {
            S N = "of " + show(v);
            return same("lexi " + N, t, sp) && same("string " + N, lexi::string(v), sp) && same("jsonify " + N, lexi::jsonify(v), sp)
                && same("escape " + N, lexi::escape(v), sp) && same("FormatFloat " + N, lexi::FormatFloat(v).string(), sp);
        }
        if ((t.size() && t[0] == '-') != (v < 0)) return bad("sign of the text \"" + vis(t) + "\" of " + show(v));
        if (!same("text of " + show(-std::fabs(v)), lexi::lexi(-std::fabs(v)), "-" + lexi::lexi(std::fabs(v)))) return false;
    )
    return true;
}
template <typename T> static bool eqf(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template <typename T> static T strto(const char *s);
template <> float strto<float>(const char *s) { return strtof(s, 0); }
template <> double strto<double>(const char *s) { return strtod(s, 0); }
template <> long double strto<long double>(const char *s) { return strtold(s, 0); }
template <typename T> static bool text04(const char *n, const S &t)
{
    T w = strto<T>(t.c_str());
    TRY(S(n) + " from " + t,
        if (!eqf(lexi::lexi<T>(t), w)) return bad("lexi<" + S(n) + ">(\"" + t + "\") is not the nearest value");
        if (!eqf(lexi::lexi<T>(t.c_str()), w)) return bad("lexi<" + S(n) + ">(C string \"" + t + "\") is not the nearest value");
        if (!eqf(T(lexi::ExtractFloat(t)), w)) return bad("ExtractFloat(\"" + t + "\") as " + n + " is not the nearest value");
    )
    return true;
}
template <typename T> static bool rt04(const char *n, T v)
{
    if (!std::isfinite(v)) return true;
    TRY(show(v),
        T r = lexi::lexi<T>(lexi::lexi(v));
        if (r != v) return bad(S("round trip of ") + n + " " + show(v) + " gives " + show(r));
        r = lexi::lexi<T>(lexi::jsonify(v));
        if (r != v) return bad(S("round trip (JSON) of ") + n + " " + show(v) + " gives " + show(r));
    )
    return true;
}
template <typename T> static bool agree(const char *n, T v)   // narrower and wider types format as the double
{
    double d = double(v);
    TRY(show(d),
        S w = lexi::FormatFloat(d).string();
        S N = S(n) + " " + show(d);
        return same("lexi " + N, lexi::lexi(v), w) && same("string " + N, lexi::string(v), w) && same("jsonify " + N, lexi::jsonify(v), w)
            && same("escape " + N, lexi::escape(v), w) && same("FormatFloat " + N, lexi::FormatFloat(v).string(), w);
    )
    return true;
}
static long double mkld(u64 m, u64 se)
{
    long double r = 0;
    char b[16] = {0};
    unsigned e = unsigned(se & 0x7FFF);
    if (e && e != 0x7FFF) m |= 1ULL << 63;
    if (e == 0) m &= ~(1ULL << 63);
    if (e == 0x7FFF) m |= 1ULL << 63;
    memcpy(b, &m, 8); memcpy(b + 8, &se, 2);
    memcpy(&r, b, 10);
    return r;
}

// ------------------------------------------------------------------ strings
static S spec_escape(const S &s)
{
    S o;
    for (unsigned char c: s) {
        bool an = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
        if (c <= 0x7E && !an) o += '\\';
        o += char(c);
    }
    return o;
}
static bool json_decode(const S &j, S &o)
{
    if (j.size() < 2 || j[0] != '"' || j.back() != '"') return false;
    for (size_t i = 1; i + 1 < j.size(); i++) {
        unsigned char c = j[i];
        if (c < 0x20 || c == '"') return false;
        if (c != '\\') { o += char(c); continue; }
        if (++i + 1 >= j.size()) return false;
        switch (j[i]) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
            case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                if (i + 4 + 1 >= j.size()) return false;
                unsigned v = 0;
                for (int k = 1; k <= 4; k++) {
                    char h = j[i + k];
                    if (h >= '0' && h <= '9') v = v * 16 + (h - '0');
                    else if (h >= 'a' && h <= 'f') v = v * 16 + (h - 'a' + 10);
                    else if (h >= 'A' && h <= 'F') v = v * 16 + (h - 'A' + 10);
                    else return false;
                }
                if (v >= 0x20) return false;     // only control bytes need this form
                o += char(v); i += 4; break;
            }
            default: return false;
        }
    }
    return true;
}
// every byte that needs no escape appears unchanged: re-encode by bytes
static bool str08(const S &s, const S &j, const S &what)
{
    S o;
    if (!json_decode(j, o)) return bad(what + " of \"" + vis(s) + "\" is \"" + vis(j) + "\", not a JSON literal");
    if (o != s) return bad(what + " of \"" + vis(s) + "\" is \"" + vis(j) + "\", which decodes to \"" + vis(o) + "\"");
    // plain bytes unescaped
    size_t i = 1;
    for (unsigned char c: s) {
        bool esc = j[i] == '\\';
        bool need = c == '"' || c == '\\' || c < 0x20;
        if (esc != need) return bad(what + " of \"" + vis(s) + "\" escapes a byte that needs none: \"" + vis(j) + "\"");
        i += esc ? (j[i + 1] == 'u' ? 6 : 2) : 1;
    }
    return true;
}
struct Derived: std::string { };
static bool chk08(const S &s)
{
    TRY(vis(s),
        if (!str08(s, lexi::jsonify(s), "jsonify")) return false;
        S z = s.c_str();
        if (!str08(z, lexi::jsonify((const char*) s.c_str()), "jsonify(const char*)")) return false;
        Derived d; d.assign(s);
        if (!str08(s, lexi::jsonify(d), "jsonify(derived)")) return false;
        if (s.size() == 1) {
            if (!str08(s, lexi::jsonify(s[0]), "jsonify(char)")) return false;
            if (!str08(s, lexi::FormatChar(s[0]).jsonify(), "FormatChar::jsonify")) return false;
        }
        if (s.size() >= 3) {
            char a[4] = {s[0], s[1], s[2], 0};
            const char (&r)[4] = a;
            if (!str08(S(a), lexi::jsonify(r), "jsonify(char[4])")) return false;
        }
    )
    return true;
}
static bool chk09(const S &s)
{
    TRY(vis(s),
        if (!same("escape(\"" + vis(s) + "\")", lexi::escape(s), spec_escape(s))) return false;
        if (!same("escape(C string \"" + vis(s) + "\")", lexi::escape(s.c_str()), spec_escape(s.c_str()))) return false;
        Derived d; d.assign(s);
        if (!same("escape(derived \"" + vis(s) + "\")", lexi::escape(d), spec_escape(s))) return false;
        if (s.size() == 1) {
            if (!same("escape(char)", lexi::escape(s[0]), spec_escape(s))) return false;
            if (!same("FormatChar::escape", lexi::FormatChar(s[0]).escape(), spec_escape(s))) return false;
        }
        if (s.size() >= 3) {
            char a[4] = {s[0], s[1], s[2], 0};
            const char (&r)[4] = a;
            if (!same("escape(char[4])", lexi::escape(r), spec_escape(a))) return false;
        }
    )
    return true;
}
template <typename F> static int outcome(F f)   // 0/1 value, 2 runtime_error, 3 other
{
    try { return f() ? 1 : 0; }
    catch (const std::runtime_error &) { return 2; }
    catch (...) { return 3; }
}
static bool chk10(const S &s)
{
    int w = s == "true" ? 1 : s == "false" ? 0 : 2;
    S z = s.c_str();
    int wz = z == "true" ? 1 : z == "false" ? 0 : 2;
    if (outcome([&] { return lexi::lexi<bool>(s); }) != w) return bad("lexi<bool>(\"" + vis(s) + "\")");
    if (outcome([&] { return bool(lexi::ExtractBool(s)); }) != w) return bad("ExtractBool(\"" + vis(s) + "\")");
    if (outcome([&] { return lexi::lexi<bool>(s.c_str()); }) != wz) return bad("lexi<bool>(C string \"" + vis(s) + "\")");
    int n = s == "null" ? 1 : 2, nz = z == "null" ? 1 : 2;
    if (outcome([&] { return lexi::lexi<std::nullptr_t>(s) == nullptr; }) != n) return bad("lexi<nullptr_t>(\"" + vis(s) + "\")");
    if (outcome([&] { return lexi::lexi<std::nullptr_t>(s.c_str()) == nullptr; }) != nz) return bad("lexi<nullptr_t>(C string \"" + vis(s) + "\")");
    if (outcome([&] { return lexi::ExtractNull(s).null() == nullptr; }) != n) return bad("ExtractNull(\"" + vis(s) + "\")");
    for (int b = 0; b < 2; b++) {
        S t = b ? "true" : "false";
        lexi::FormatBool f{bool(b)};
        if (lexi::lexi(bool(b)) != t || lexi::string(bool(b)) != t || lexi::escape(bool(b)) != t || lexi::jsonify(bool(b)) != t
            || f.string() != t || f.escape() != t || f.jsonify() != t || S(f) != t || S(f.c_str()) != t) return bad("text of " + t);
    }
    lexi::FormatNull f0;
    if (f0.string() != "null" || f0.escape() != "null" || f0.jsonify() != "null" || S(f0) != "null" || S(f0.c_str()) != "null" || f0.size() != 4) return bad("text of null");
    lexi::FormatNull f(nullptr);
    if (lexi::lexi(nullptr) != "null" || lexi::string(nullptr) != "null" || lexi::escape(nullptr) != "null" || lexi::jsonify(nullptr) != "null"
        || f.string() != "null" || f.escape() != "null" || f.jsonify() != "null" || S(f) != "null" || S(f.c_str()) != "null") return bad("text of null");
    return true;
}
static bool chk11(const S &s)
{
    for (int via = 0; via < 4; via++) {
        S t = via == 2 ? S(s.c_str()) : s;
        int got = -1;
        try {
            if (via == 3) { lexi::ExtractChar x(s); got = (unsigned char) x; }
            else {
                char c = via == 0 ? lexi::lexi<char>(s) : via == 1 ? char(lexi::ExtractChar(s)) : lexi::lexi<char>(s.c_str());
                got = (unsigned char) c;
            }
        } catch (const std::runtime_error &) { got = -2; } catch (...) { got = -3; }
        int want = t.empty() ? -2 : (unsigned char) t[0];
        if (got != want) return bad("extracting a character from \"" + vis(t) + "\" gives " + std::to_string(got));
    }
    if (s.size() == 1) {
        char c = s[0];
        TRY("char",
            if (!same("lexi(char)", lexi::lexi(c), s)) return false;
            if (!same("string(char)", lexi::string(c), s)) return false;
            lexi::FormatChar f(c);
            if (!same("FormatChar::string", f.string(), s)) return false;
            if (!same("FormatChar conversion", S(f), s)) return false;
            if (!same("FormatChar data", S(f.data(), f.size()), s)) return false;
            if (!same("FormatChar(unsigned)", lexi::FormatChar((unsigned char) c).string(), s)) return false;
            if (!same("escape(char)", lexi::escape(c), spec_escape(s))) return false;
            if (!str08(s, lexi::jsonify(c), "jsonify(char)")) return false;
        )
    }
    return true;
}

// ------------------------------------------------------------------ formatter objects
template <typename F> static bool views(const F &f, const S &text, const S &esc, const S &json, bool chr, const S &what)
{
    if (f.size() != text.size() || f.length() != text.size()) return bad(what + ": size() is " + std::to_string(f.size()) + ", length() is " + std::to_string(f.length()) + " for \"" + vis(text) + "\"");
    if (!same(what + ": data()", S(f.data(), f.size()), text)) return false;
    if (!same(what + ": c_str()", S(f.c_str(), f.size()), text)) return false;
    if (f.data()[f.size()] != 0 || f.c_str()[f.size()] != 0) return bad(what + ": not null-terminated");
    if (!chr && strlen(f.c_str()) != f.size()) return bad(what + ": text ends before size()");
    return same(what + ": string()", f.string(), text) && same(what + ": escape()", f.escape(), esc) && same(what + ": jsonify()", f.jsonify(), json)
        && same(what + ": conversion", S(f), text);
}
template <typename F> __attribute__((noinline)) static void scribble(F v)
{
    volatile char b[600];
    for (int i = 0; i < 600; i++) b[i] = char('A' + i % 26);
    (void) v; (void) b;
}
template <typename F, typename V> __attribute__((noinline)) static F made(V v) { F f(v); F g(f); scribble(1); return g; }
template <typename F, typename V> static bool chk14(const char *n, V v, V w, bool chr)
{
    // what the original says right after construction is the reference
    F ref(v);
    S text(ref.data(), ref.size()), esc = ref.escape(), json = ref.jsonify(), N(n);
    if (!views(ref, text, esc, json, chr, N)) return false;
    if (!chr) { if (esc != text || json != text) return bad(N + ": escaped or JSON form differs from the text"); }
    TRY(n,
        F c(ref);
        if (!views(c, text, esc, json, chr, N + " copy")) return false;
        { F a(v); F b(w); b = a; a = F(w); if (!views(b, text, esc, json, chr, N + " assigned")) return false; }
        { F a(v); F &r = a; a = r; if (!views(a, text, esc, json, chr, N + " self-assigned")) return false; }
        { F a(v); F b(a); a = F(w); scribble(2); if (!views(b, text, esc, json, chr, N + " copy after the original changed")) return false; }
        { std::unique_ptr<F> p(new F(v)); F b(*p); memset((void*) p.get(), 'Z', sizeof(F) < 1 ? 1 : 0); p->~F(); memset((void*) p.get(), 'Z', sizeof(F));
          F *raw = p.release(); bool ok = views(b, text, esc, json, chr, N + " copy after the original died"); ::operator delete(raw); if (!ok) return false; }
        { std::unique_ptr<F> p(new F(v)); F b(w); b = *p; p->~F(); memset((void*) p.get(), 'Z', sizeof(F));
          F *raw = p.release(); bool ok = views(b, text, esc, json, chr, N + " assigned, after the original died"); ::operator delete(raw); if (!ok) return false; }
        { F b(made<F, V>(v)); scribble(3); if (!views(b, text, esc, json, chr, N + " returned by value")) return false; }
        { std::vector<F> q; for (int i = 0; i < 5; i++) { q.push_back(F(v)); q.push_back(F(w)); } for (int i = 0; i < 10; i += 2) if (!views(q[i], text, esc, json, chr, N + " in a vector")) return false; }
        { F a(v); F b(w); std::swap(a, b); if (!views(b, text, esc, json, chr, N + " swapped")) return false; }
        { F a(w); F b(a); F d(v); a = b; b = d; a = b; if (!views(a, text, esc, json, chr, N + " assigned twice")) return false; }
    )
    return true;
}
static bool obj14(const Case &c)
{
    if (c.k == 'I') {
        u64 x = c.a, y = c.b;
#define O14(T) (chk14<lexi::FormatInt, T>("FormatInt " #T, (T) x, (T) y, false))
        if (!(O14(signed char) && O14(unsigned char) && O14(short) && O14(unsigned short) && O14(int) && O14(unsigned) && O14(long) && O14(unsigned long)
            && O14(long long) && O14(unsigned long long))) return false;
        if (!chk14<lexi::FormatEnum, Color>("FormatEnum", Color((int) x), Color((int) y), false)) return false;
        if (!chk14<lexi::FormatEnum, Big64>("FormatEnum", Big64(x), Big64(y), false)) return false;
        if (!chk14<lexi::FormatChar, char>("FormatChar", char(x), char(y), true)) return false;
        if (!chk14<lexi::FormatChar, unsigned char>("FormatChar", (unsigned char) x, (unsigned char) y, true)) return false;
        if (!chk14<lexi::FormatBool, bool>("FormatBool", x & 1, y & 1, false)) return false;
        { lexi::FormatNull a; lexi::FormatNull b(a); lexi::FormatNull d(nullptr); d = a; if (!views(a, "null", "null", "null", false, "FormatNull()") || !views(b, "null", "null", "null", false, "FormatNull() copy")
            || !views(d, "null", "null", "null", false, "FormatNull() assigned")) return false; }
        return chk14<lexi::FormatNull, std::nullptr_t>("FormatNull", nullptr, nullptr, false);
    }
    double v = fromBits(c.a), w = fromBits(c.b);
    return chk14<lexi::FormatFloat, double>("FormatFloat", v, w, false) && chk14<lexi::FormatFloat, float>("FormatFloat", (float) v, (float) w, false)
        && chk14<lexi::FormatFloat, long double>("FormatFloat", v, w, false);
}

// ------------------------------------------------------------------ entry points
template <typename T> static bool entry(const char *n, T v, const S &t, const S &e, const S &j)
{
    S N(n);
    return same("lexi(" + N + ")", lexi::lexi(v), t) && same("string(" + N + ")", lexi::string(v), t) && same("escape(" + N + ")", lexi::escape(v), e)
        && same("jsonify(" + N + ")", lexi::jsonify(v), j);
}
template <typename F, typename T> static bool entryF(const char *n, T v)
{
    F f(v);
    return entry(n, v, f.string(), f.escape(), f.jsonify());
}
static bool chk20(const Case &c)
{
    TRY(enc(c),
    if (c.k == 'I') {
        u64 x = c.a;
#define E20(T) (entryF<lexi::FormatInt, T>(#T, (T) x))
        if (!(E20(signed char) && E20(unsigned char) && E20(short) && E20(unsigned short) && E20(int) && E20(unsigned) && E20(long) && E20(unsigned long)
            && E20(long long) && E20(unsigned long long))) return false;
        if (!entryF<lexi::FormatChar, char>("char", char(x))) return false;
        if (!entryF<lexi::FormatBool, bool>("bool", x & 1)) return false;
        if (!entryF<lexi::FormatNull, std::nullptr_t>("null", nullptr)) return false;
        if (!INTS(int01)) return false;
        return entryF<lexi::FormatEnum, Color>("enum", Color((int) x)) && entryF<lexi::FormatEnum, Big64>("enum", Big64(x));
    }
    if (c.k == 'S') {
        const S &s = c.s; S z = s.c_str();
        S j = lexi::jsonify(s), jz = lexi::jsonify(z);
        if (!entry<const S&>("std::string", s, s, spec_escape(s), j)) return false;
        if (!str08(s, j, "jsonify") || !str08(z, jz, "jsonify")) return false;
        if (!entry<const char*>("const char*", s.c_str(), z, spec_escape(z), jz)) return false;
        std::vector<char> m(s.c_str(), s.c_str() + s.size() + 1);
        if (!entry<char*>("char*", m.data(), z, spec_escape(z), jz)) return false;
        Derived d; d.assign(s);
        if (!entry<const Derived&>("derived string", d, s, spec_escape(s), j)) return false;
        if (s.size() >= 3) {
            char a[4] = {s[0], s[1], s[2], 0};
            S q(a), jq = lexi::jsonify(q);
            const char (&r)[4] = a;
            if (!(same("lexi(char[4])", lexi::lexi(r), q) && same("string(char[4])", lexi::string(r), q) && same("escape(char[4])", lexi::escape(r), spec_escape(q))
                && same("jsonify(char[4])", lexi::jsonify(r), jq))) return false;
        }
        return true;
    }
    if (c.k == 'D') return agree("double", fromBits(c.a)) && entryF<lexi::FormatFloat, double>("double", fromBits(c.a));
    if (c.k == 'F') return agree("float", fromBits32(c.a));
    if (c.k == 'L') return agree("long double", mkld(c.a, c.b));
    )
    return true;
}

// ------------------------------------------------------------------ independence of history and of other threads
static S op17(const Case &c, int which)
{
    try {
        if (c.k == 'I') {
            switch (which % 12) {
                case 0: return lexi::lexi((int) c.a); case 1: return lexi::lexi((unsigned long long) c.a); case 2: return lexi::string((short) c.a);
                case 3: return lexi::jsonify((long long) c.a); case 4: return lexi::lexi((unsigned char) c.a); case 5: return lexi::escape((unsigned) c.a);
                case 6: return lexi::lexi(char(c.a)); case 7: return lexi::lexi(bool(c.a & 1)); case 8: return lexi::lexi(Color((int) c.a));
                case 9: return lexi::escape(char(c.a)); case 10: { lexi::FormatInt f((long long) c.a); lexi::FormatInt g(f); return S(g.c_str(), g.size()); }
                default: return lexi::lexi((unsigned short) c.a);
            }
        }
        if (c.k == 'D') switch (which % 3) { case 0: return lexi::lexi(fromBits(c.a)); case 1: return lexi::jsonify((float) fromBits(c.a)); default: { lexi::FormatFloat f(fromBits(c.a)); return f.escape(); } }
        switch (which % 14) {
            case 0: return lexi::escape(c.s); case 1: return lexi::jsonify(c.s); case 2: return lexi::lexi(c.s); case 3: return lexi::string(c.s);
            case 4: return std::to_string(lexi::lexi<int>(c.s)); case 5: return std::to_string(lexi::lexi<unsigned long long>(c.s));
            case 6: { char b[64]; snprintf(b, 64, "%a", lexi::lexi<double>(c.s)); return b; }
            case 7: { char b[64]; snprintf(b, 64, "%a", (double) lexi::lexi<float>(c.s)); return b; }
            case 8: { char b[64]; snprintf(b, 64, "%La", lexi::lexi<long double>(c.s)); return b; }
            case 9: return lexi::lexi<bool>(c.s) ? "T" : "F"; case 10: return S(1, lexi::lexi<char>(c.s));
            case 11: return std::to_string((int) lexi::lexi<Color>(c.s)); case 12: return std::to_string(lexi::lexi<short>(c.s));
            default: lexi::lexi<std::nullptr_t>(c.s); return "null";
        }
    } catch (const std::exception &e) { return S("throws ") + e.what(); }
}
static Case gen(const S &mode, u64 i);
static bool chk17(u64 seed)
{
    const int N = 400, TH = 6;
    rs = seed * 2654435761u + 88172645463325252ULL;
    std::vector<Case> cs; std::vector<int> wh; std::vector<S> ref;
    for (int i = 0; i < N; i++) {
        if (i && rnd(3) == 0) {                    // next to its like: what a cache would mistake for the value before
            Case c = cs.back();
            if (c.k == 'D') switch (rnd(6)) {
                case 0: c.a = toBits((double) (float) fromBits(c.a)); break; case 1: c.a ^= 1ULL << 63; break; case 2: c.a ^= 1ULL << rnd(52); break;
                case 3: c.a += rnd(5) - 2; break; case 4: c.a ^= rnd() & 0xFFFFFFFFu; break; default: c.a ^= rnd(8) << 52;
            }
            else if (c.k == 'I') c.a = rnd(2) ? c.a ^ 1ULL << rnd(64) : c.a + rnd(5) - 2;
            else if (!c.s.empty()) switch (rnd(4)) {
                case 0: c.s[rnd(c.s.size())] ^= 1 << rnd(4); break; case 1: c.s.pop_back(); break; case 2: c.s.push_back('0' + rnd(10)); break;
                default: std::swap(c.s[rnd(c.s.size())], c.s[rnd(c.s.size())]);
            }
            cs.push_back(c); wh.push_back(rnd(8) ? wh.back() : (int) rnd(1000));
            continue;
        }
        switch (rnd(5)) {
            case 0: cs.push_back(gen("C01", rnd())); break;
            case 1: cs.push_back(gen("C03", rnd())); cs.back().k = 'D'; break;
            case 2: cs.push_back(gen("C08", rnd())); break;
            case 3: cs.push_back(gen("C04T", rnd())); break;
            default: cs.push_back(gen("C02T", rnd())); break;
        }
        wh.push_back((int) rnd(1000));
    }
    for (int i = 0; i < N; i++) ref.push_back(op17(cs[i], wh[i]));
    for (int r = 0; r < 3; r++)
        for (int j = N - 1; j >= 0; j--) {
            int i = r == 0 ? j : r == 1 ? int((j * 7919L + 13) % N) : N - 1 - j;
            if (r == 1) errno = ERANGE;
            S g = op17(cs[i], wh[i]);
            if (g != ref[i]) return bad("after other calls, operation " + std::to_string(wh[i]) + " on " + enc(cs[i]) + " gives \"" + vis(g) + "\", first gave \"" + vis(ref[i]) + "\"");
        }
    std::atomic<int> wrong(-1);
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int t = 0; t < TH; t++) th.emplace_back([&, t] {
        ready++;
        while (ready < TH) ;
        for (int r = 0; r < 6 && wrong < 0; r++)
            for (int j = 0; j < N; j++) {
                int i = int((j * (t % 2 ? 7919L : 1L) + t * 31) % N);
                if (op17(cs[i], wh[i]) != ref[i]) { wrong = i; return; }
            }
    });
    for (auto &t: th) t.join();
    if (wrong >= 0) return bad("with other threads running, operation " + std::to_string(wh[wrong]) + " on " + enc(cs[wrong]) + " does not give \"" + vis(ref[wrong]) + "\"");
    return true;
}

// ------------------------------------------------------------------ generators
static u64 gint(u64 i)
{
    if (i < 65536) return i;                       // every 8- and 16-bit pattern
    if (i < 65536 * 2) return u64(0) - (i - 65536);
    i -= 131072;
    static const u64 P10[20] = {1ULL,10ULL,100ULL,1000ULL,10000ULL,100000ULL,1000000ULL,10000000ULL,100000000ULL,1000000000ULL,10000000000ULL,
        100000000000ULL,1000000000000ULL,10000000000000ULL,100000000000000ULL,1000000000000000ULL,10000000000000000ULL,100000000000000000ULL,
        1000000000000000000ULL,10000000000000000000ULL};
    if (i < 20 * 9 * 10) {                         // around d * 10^k
        u64 b = P10[i / 90] * (i % 90 / 10 + 1), d = i % 10;
        return i % 2 ? b - d : b + d;
    }
    i -= 1800;
    if (i < 64 * 10) return (1ULL << (i / 10)) + i % 10 - 5;
    if (i < 64 * 20) return u64(0) - ((1ULL << (i / 10 - 64)) + i % 10 - 5);
    u64 r = rnd();
    if (rnd(12) == 0) { u64 d = gdict(); return rnd(4) ? d : u64(0) - d; }
    switch (rnd(6)) {
        case 0: return r;
        case 1: return r >> rnd(64);
        case 2: return u64(0) - (r >> rnd(64));
        case 3: return (unsigned) r;
        case 4: { u64 p = P10[rnd(20)]; return p * (1 + rnd(9)) + rnd(5) - 2; }
        default: { u64 p = P10[rnd(20)]; return r - r % p + (rnd(2) ? 0 : rnd(3)); }    // long runs of zeros
    }
}
static u64 gdbl(u64 i)
{
    if (i < 2047 * 4) {
        u64 e = i / 4 << 52;
        switch (i % 4) { case 0: return e; case 1: return e + 1; case 2: return e | ((1ULL << 52) - 1); default: return e | (1ULL << 51); }
    }
    i -= 2047 * 4;
    static const u64 sp[] = {0, 1ULL << 63, 0x7FF0000000000000ULL, 0xFFF0000000000000ULL, 0x7FF8000000000000ULL, 0xFFF8000000000000ULL, 0x7FF0000000000001ULL,
        0xFFFFFFFFFFFFFFFFULL, 1, 2, 3, 0x000FFFFFFFFFFFFFULL, 0x0010000000000000ULL, 0x7FEFFFFFFFFFFFFFULL, 0x8000000000000001ULL, 0x7FFFFFFFFFFFFFFFULL};
    if (i < 16) return sp[i];
    i -= 16;
    if (i < 40000) { double d = double(i) / (i % 7 ? 1 : 100) * (i % 2 ? 1 : -1); return toBits(d); }
    i -= 40000;
    if (i < 660 * 12) {                            // powers of ten and neighbours
        char t[32]; static const char *m[] = {"1", "9.999", "5", "1.5"};
        snprintf(t, 32, "%se%d", m[i % 12 / 3], int(i / 12) - 330);
        double d = strtod(t, 0); u64 b = toBits(d);
        return i % 3 == 0 ? b : i % 3 == 1 ? (b ? b - 1 : 1) : (b + 1 < 0x7FF0000000000000ULL ? b + 1 : b);
    }
    u64 r = rnd(), s = rnd() & (1ULL << 63);
    if (rnd(40) == 0) { u64 d = gdict(); return rnd(3) ? s | toBits(double(d)) : d; }
    switch (rnd(12)) {
        case 0: case 1: case 2: return r;
        case 3: return (r & ~(0x7FFULL << 52)) | (u64(1023 - 40 + rnd(140)) << 52);
        case 4: return s | (r & ((1ULL << 52) - 1)) >> rnd(52);                        // subnormal
        case 5: { char t[48]; snprintf(t, 48, "%llue%d", (unsigned long long) (r % (u64) std::pow(10.0, 1 + (int) rnd(17))), (int) rnd(660) - 340); return s | toBits(std::fabs(strtod(t, 0))); }
        case 6: { char t[48]; snprintf(t, 48, "%llue%d", (unsigned long long) (r % (u64) std::pow(10.0, 1 + (int) rnd(17))), (int) rnd(30) - 20); return s | toBits(std::fabs(strtod(t, 0))); }
        case 7: return s | toBits(double(r >> rnd(64)));
        case 8: return s | (u64(rnd(2047)) << 52) | ((rnd(2) ? (1ULL << 52) - 1 - rnd(4) : rnd(4)));
        case 9: { float f = fromBits32((uint32_t) r); return toBits((double) f); }
        case 10: { u64 m = 0; for (int k = 0; k < 3; k++) m |= 1ULL << rnd(52); return s | (u64(rnd(2047)) << 52) | m; }
        default: { u64 m = ~0ULL; for (int k = 0; k < 3; k++) m ^= 1ULL << rnd(52); return s | (u64(rnd(2047)) << 52) | (m & ((1ULL << 52) - 1)); }
    }
}
static S gstr(u64 i)
{
    if (i < 256) return S(1, char(i));
    i -= 256;
    if (i < 1) return "";
    i -= 1;
    if (i < 65536) { S s(2, 0); s[0] = char(i); s[1] = char(i >> 8); return s; }
    i -= 65536;
    if (i < 3 * 256 * 3) { S s = "ab"; s.insert(i % 3, 1, char(i / 9)); s += i / 3 % 3 == 0 ? "" : i / 3 % 3 == 1 ? "\\" : "1"; return s; }
    static const char *bits[] = {"\\", "\"", "\n", "\x01", "\x1f", "\x7f", "\xc3\xa9", "a", "Z", "0", "/", "u", "\\u", "\x80", "\xff", " ", "~", "true", "false", "null"};
    S s;
    size_t n = rnd(4) == 0 ? rnd(300) : rnd(20);
    if (rnd(100) == 0) n = rnd(3000);
    if (rnd(60) == 0) { u64 d = gdict(); if (d < 4000) n = d; else if (d < 300000 && rnd(20) == 0) n = d; }
    if (rnd(3000) == 0) n = rnd(2) ? 60000 + rnd(100000) : (size_t(1) << (9 + rnd(10))) + rnd(9) - 4;
    if (rnd(3) == 0) {                             // plain bytes with an odd one in a few places
        static const char pl[] = {'a', 'Z', '0', '\x7f', '\xe9'};
        s = S(n, pl[rnd(5)]);
        if (rnd(2)) for (size_t k = 0; k < n; k++) s[k] = char('a' + k * 7 % 26);
        for (u64 k = rnd(4); k > 0 && n; k--) s[rnd(3) ? rnd(n) : n - 1 - rnd(std::min<size_t>(n, 9))] = char(rnd(3) ? rnd(128) : rnd(256));
        return s;
    }
    int kind = (int) rnd(4);
    if (kind == 3 && !dictt.empty() && n < 400) {
        for (size_t k = 0; k < n; k++) { if (rnd(3)) s += char(gdict()); else s += dictt[rnd(dictt.size())]; }
        return s;
    }
    for (size_t k = 0; k < n; k++) {
        if (kind == 0) s += char(rnd());
        else if (kind == 1) { if (rnd(15) == 0) s += '\0'; else s += bits[rnd(20)]; }
        else s += char(rnd(2) ? rnd(128) : rnd(32));
    }
    return s;
}
static S gword(u64 i)
{
    static const char *w[] = {"true", "false", "null"};
    if (i < 3) return w[i];
    i -= 3;
    if (i < 3 * 6 * 258) {                       // one edit: replace, insert or delete
        S s = w[i % 3]; size_t p = i / 3 % 6; size_t b = i / 18;
        if (p > s.size()) p = s.size();
        if (b < 256) { if (i % 2 && p < s.size()) s[p] = char(b); else s.insert(p, 1, char(b)); }
        else if (b == 256) s = s.substr(0, p); else if (p < s.size()) s.erase(p, 1);
        return s;
    }
    S s = rnd(3) ? S(w[rnd(3)]) : gstr(rnd(100000));
    if (!dictt.empty() && rnd(8) == 0) { s = dictt[rnd(dictt.size())]; if (rnd(2)) return s; }
    switch (rnd(6)) {
        case 0: s += w[rnd(3)]; break;
        case 1: for (auto &c: s) if (rnd(2)) c = char(c ^ 0x20); break;
        case 2: s += char(rnd()); break;
        case 3: s = char(rnd()) + s; break;
        case 4: if (!s.empty()) s[rnd(s.size())] = char(rnd()); break;
        default: s = s.substr(0, rnd(s.size() + 1)) + S(rnd(3), '\0') + w[rnd(3)]; break;
    }
    return s;
}
static S gdectext(u64 i)
{
    u64 v = gint(i * 3 + rnd(3));
    S t = dectext(v, false);
    if (rnd(4) == 0) t = S(rnd(25), '0') + t;
    if (rnd(3) == 0) t = "-" + t;
    return t;
}
static S U64(u64 v) { return std::to_string((unsigned long long) v); }
static S gflttext(u64)
{
    char t[900];
    if (rnd(30) == 0) {
        S s = U64(gdict());
        if (rnd(2)) s.insert(rnd(s.size() + 1), ".");
        if (rnd(2)) s += "e" + std::to_string((int) (rnd(4) ? gdict() % 400 : rnd(40)) - (rnd(2) ? 0 : 200));
        return s;
    }
    switch (rnd(12)) {
        case 8: {    // exactly between two doubles, or a little beside
            u64 b = rnd() & 0x7FEFFFFFFFFFFFFFULL; if (rnd(2)) b = u64(1023 - 60 + rnd(120)) << 52 | (b & ((1ULL << 52) - 1)); double f = fromBits(b);
            snprintf(t, 900, "%.800Le", ((long double) f + (long double) std::nextafter(f, INFINITY)) / 2);
            S s = t; size_t e = s.find('e'), z = e;
            while (z > 2 && s[z - 1] == '0') z--;
            s.erase(z, e - z);
            switch (rnd(3)) { case 0: s.insert(z, S(rnd(30), '0') + "1"); break; case 1: s[z - 1]--; s.insert(z, S(1 + rnd(20), '9')); break; }
            return s;
        }
        case 9: {    // zeros in front, zeros behind, a point anywhere, every way to write an exponent
            S s; static const char *E[] = {"", "", "e0", "E+5", "e-07", "e+0", "E-3", "e12", "e-12"};
            size_t n = 1 + rnd(22);
            for (size_t k = 0; k < n; k++) s += char('0' + rnd(10));
            if (rnd(2)) s = S(rnd(40), '0') + s;
            if (rnd(2)) s += S(rnd(40), '0');
            if (rnd(3)) s.insert(rnd(s.size() + 1), ".");
            return (rnd(4) ? "" : rnd(2) ? "-" : "+") + s + E[rnd(9)];
        }
        case 10: snprintf(t, 64, "%llue%d", (unsigned long long) rnd(1000), (int) rnd(900) - 450); break;      // beyond both ends of the range
        case 11: { S s = U64(rnd() >> rnd(64)); if (rnd(3)) s.insert(s.size() - rnd(s.size()), "."); return s; }
        case 0: snprintf(t, 64, "%.17g", fromBits(gdbl(rnd() >> 20))); break;
        case 1: {    // just above, at or just below a midpoint of two floats
            uint32_t b = uint32_t(rnd()) & 0x7F7FFFFF; float f = fromBits32(b), g = fromBits32(b + 1);
            if (!std::isfinite(g)) return "1.5";
            double m = ((double) f + (double) g) / 2;
            snprintf(t, 900, "%.200e", m);
            S s = t; size_t e = s.find('e');
            int k = (int) rnd(3);
            if (k == 1) s.insert(e, "000000000000000000001");
            if (k == 2) { snprintf(t, 900, "%.*e", 20 + (int) rnd(30), m); s = t; }
            return s;
        }
        case 2: {    // same for doubles
            u64 b = rnd() & 0x7FEFFFFFFFFFFFFFULL; double f = fromBits(b);
            snprintf(t, 900, "%.*Le", 19 + (int) rnd(40), ((long double) f + (long double) std::nextafter(f, INFINITY)) / 2);
            break;
        }
        case 3: snprintf(t, 64, "%llue%d", (unsigned long long) rnd(), (int) rnd(700) - 360); break;
        case 4: snprintf(t, 64, "%llu.%llu", (unsigned long long) rnd(1000000), (unsigned long long) rnd()); break;
        case 5: snprintf(t, 64, "%d", (int) rnd()); break;
        case 6: { S s; size_t n = 1 + rnd(40); for (size_t k = 0; k < n; k++) s += char('0' + rnd(10)); s += "."; for (size_t k = 0; k < n; k++) s += char('0' + rnd(10)); return s; }
        default: { long double v = mkld(rnd(), 0x3FFF - 60 + rnd(120)); snprintf(t, 900, "%.*Lg", 15 + (int) rnd(10), v); }
    }
    return (rnd(4) ? "" : "-") + S(t[0] == '-' ? t + 1 : t);
}
static Case gen(const S &m, u64 i)
{
    Case c{'I', 0, 0, ""};
    if (m == "C01" || m == "C12") { c.a = gint(i); return c; }
    if (m == "C02") { if (i > 140000 && rnd(2)) { c.k = 'S'; c.s = gdectext(i); } else c.a = gint(i); return c; }
    if (m == "C02T") { c.k = 'S'; c.s = gdectext(i); return c; }
    if (m == "C04T") { c.k = 'S'; c.s = gflttext(i); return c; }
    if (m == "C03" || m == "C05" || m == "C06" || m == "C07") {
        c.k = 'D'; c.a = gdbl(i);
        if (i > 60000 && rnd(8) == 0) { c.k = rnd(2) ? 'F' : 'L'; c.a = c.k == 'F' ? rnd() & 0xFFFFFFFF : rnd(); c.b = (rnd(2) << 15) | (rnd(8) ? 0x3FFF - 1080 + rnd(2120) : rnd(0x8000)); }
        return c;
    }
    if (m == "C04") {
        if (i > 9000 && rnd(2)) { c.k = 'S'; c.s = gflttext(i); return c; }
        c.k = rnd(3) ? 'D' : 'F'; c.a = c.k == 'D' ? gdbl(i) : rnd() & 0xFFFFFFFF; return c;
    }
    if (m == "C08" || m == "C09") { c.k = 'S'; c.s = gstr(i); return c; }
    if (m == "C10") { c.k = 'S'; c.s = gword(i); return c; }
    if (m == "C11") { c.k = 'S'; c.s = i < 300 ? gstr(i) : gstr(i + rnd(100000)); return c; }
    if (m == "C14") {
        if (i % 2) { c.a = gint(i % 4 == 1 ? i / 4 * 7 : 131072 + i); c.b = gint(131072 + rnd(5000)); }
        else { c.k = 'D'; c.a = gdbl(i / 2 * 3); c.b = gdbl(rnd(100000)); }
        return c;
    }
    if (m == "C20") {
        switch (i % 5) {
            case 0: c.a = gint(i / 5); return c;
            case 1: case 4: c.k = 'S'; c.s = gstr(i / 5); return c;
            case 2: c.k = 'D'; c.a = gdbl(i / 5); return c;
            default: c.k = rnd(2) ? 'F' : 'L'; c.a = c.k == 'F' ? rnd() & 0xFFFFFFFF : rnd(); c.b = (rnd(2) << 15) | (rnd(8) ? 0x3FFF - 1080 + rnd(2120) : rnd(0x8000)); return c;
        }
    }
    c.a = rnd();
    return c;
}
static bool check_(const S &m, const Case &c)
{
    u64 x = c.a;
    if (m == "C01") return c.k != 'I' || INTS(int01);
    if (m == "C02") {
        if (c.k == 'I') return INTS(int02);
        if (c.k != 'S') return true;
        // decimal text
        size_t i = 0; bool neg = false;
        if (i < c.s.size() && c.s[i] == '-') { neg = true; i++; }
        if (i == c.s.size()) return true;
        Big v = 0;
        for (; i < c.s.size(); i++) { if (!isdigit((unsigned char) c.s[i])) return true; v = v * 10 + (c.s[i] - '0'); }
        if (v >= Big(1) << 64) return true;
        x = (u64) v; if (neg) x = u64(0) - x;
#define T2(n, v) text02(n, c.s, v)
        return INTS(T2);
    }
    if (m == "C12") return c.k != 'I' || (INTS(int12) && spos12(x));
    if (m == "C03" || m == "C05" || m == "C06" || m == "C07") {
        auto f = m == "C03" ? dbl03 : m == "C05" ? dbl05 : m == "C06" ? dbl06 : dbl07;
        if (c.k == 'D') return f(fromBits(x));
        if (c.k == 'F') return f((double) fromBits32(x)) && agree("float", fromBits32(x));
        if (c.k == 'L') { long double l = mkld(x, c.b); return f((double) l) && agree("long double", l); }
        return true;
    }
    if (m == "C04") {
        if (c.k == 'D') return rt04("double", fromBits(x)) && rt04("float", (float) fromBits(x));
        if (c.k == 'F') return rt04("float", fromBits32(x));
        if (c.k == 'S') return text04<float>("float", c.s) && text04<double>("double", c.s) && text04<long double>("long double", c.s);
        return true;
    }
    if (m == "C08") return c.k != 'S' || chk08(c.s);
    if (m == "C09") return c.k != 'S' || chk09(c.s);
    if (m == "C10") return c.k != 'S' || chk10(c.s);
    if (m == "C11") return c.k != 'S' || chk11(c.s);
    if (m == "C14") return (c.k != 'I' && c.k != 'D') || obj14(c);
    if (m == "C17") return c.k != 'I' || chk17(c.a);
    if (m == "C20") return chk20(c);
    fprintf(stderr, "mode %s not in this group\n", m.c_str());
    exit(3);
}
#elif GROUP == 2
static double fromBits(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 toBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static Case gen(const S &m, u64 i)
{
    Case c{'D', 0, 0, ""};
    if (m == "C19") { c.k = 'I'; c.a = i % 309; return c; }
    static const u64 M = (1ULL << 52) - 1;
    if (i < 4096 * 8) { u64 h = i / 8 << 52; static const u64 m[8] = {0, 1, 2, M, M - 1, 1ULL << 51, (1ULL << 51) - 1, 1ULL << 32}; c.a = h | m[i % 8]; return c; }
    i -= 4096 * 8;
    if (i < 4096 * 52) { c.a = (i / 52 << 52) | (1ULL << i % 52); return c; }
    c.a = rnd();
    switch (rnd(4)) {
        case 0: c.a = (c.a & ~(0x7FFULL << 52)) | (0x7FFULL << 52); break;
        case 1: c.a &= ~(0x7FFULL << 52); break;
        case 2: c.a &= rnd() & rnd() & rnd(); break;
    }
    return c;
}
static bool check_(const S &m, const Case &c)
{
    if (m == "C19") {
        if (c.k != 'I' || c.a > 308) return true;
        char t[16]; snprintf(t, 16, "1e%d", (int) c.a);
        double r;
        try { r = lexi::detail::pow10((int) c.a); } catch (...) { return bad("pow10(" + std::to_string(c.a) + ") throws"); }
        if (toBits(r) != toBits(strtod(t, 0))) { char b[64]; snprintf(b, 64, "%.17g", r); return bad("pow10(" + std::to_string(c.a) + ") is " + b); }
        return true;
    }
    if (c.k != 'D') return true;
    u64 a = c.a & ~(1ULL << 63), inf = 0x7FFULL << 52; bool s = c.a >> 63;
    double d = fromBits(c.a);
    namespace L = lexi::detail;
#define K(f, e) if (bool(L::f(d)) != (e)) { char b[64]; snprintf(b, 64, #f " of bit pattern %016llx is %d", (unsigned long long) c.a, (int) L::f(d)); return bad(b); }
    K(isNan, a > inf) K(isInf, a == inf) K(isInfinity, a == inf && !s) K(isNegativeInfinity, a == inf && s) K(isFinite, a < inf) K(isZero, a == 0) K(isPositive, !s)
    return true;
}
#else
// ------------------------------------------------------------------ big integers: programs over three registers
typedef lexi::detail::BigInteger BI;
struct Peek: BI
{
    template <typename X> static constexpr unsigned get(decltype(size_t(X::capacity))) { return unsigned(X::capacity); }
    template <typename X> static constexpr unsigned get(...) { return 416; }
};
static const unsigned CAP = Peek::get<Peek>(0);
static Big val(const BI &b)
{
    std::vector<u64> l;
    for (size_t i = 0, n = b.count(); i < n; i++) l.push_back(b.digit(i));
    Big v = 0;
    if (!l.empty()) boost::multiprecision::import_bits(v, l.begin(), l.end(), 64, false);
    return v;
}
static S bs(const Big &b) { S s = b.str(0, std::ios_base::hex); return s.size() > 80 ? s.substr(0, 40) + "..." + s.substr(s.size() - 30) + " (" + std::to_string(s.size()) + " hex digits)" : s; }
static const Big LIM = Big(1) << (64 * CAP);

static std::vector<u64> limbs(const S &arg)
{
    u64 v[5] = {1, 0, 1, 0, 0}; int n = 0;
    for (size_t i = 0; i < arg.size() && n < 5;) { v[n++] = strtoull(arg.c_str() + i, 0, 10); i = arg.find(':', i); if (i == S::npos) break; i++; }
    size_t c = (size_t) std::min<u64>(std::max<u64>(v[0], 1), CAP);
    u64 x = v[2] * 2 + 1;
    auto next = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    std::vector<u64> l(c);
    for (size_t i = 0; i < c; i++) {
        u64 y = next();
        switch (v[1] % 8) {
            case 0: l[i] = y; break;
            case 1: l[i] = ~0ULL; break;
            case 2: l[i] = 0; break;
            case 3: l[i] = y & 1 ? ~0ULL : 0; break;
            case 4: l[i] = i < v[2] % c ? ~0ULL : y; break;      // a long carry
            case 5: l[i] = i < v[2] % c ? 0 : y; break;          // a long borrow
            case 6: l[i] = y >> (y & 63); break;
            default: l[i] = u64(0) - (y >> (y & 63)); break;
        }
    }
    if (n >= 5) l[v[3] % c] = v[4];
    if (c > 1 && l[c - 1] == 0) l[c - 1] = 1;
    return l;
}

static bool prog(const S &p, const S &mode)
{
    // tokens: r=digits:D  r=word:W  r+W  r*W  r.W (32-bit)  r<W  r5W  r=q (copy)  r-q>t (difference)
    std::vector<std::unique_ptr<BI>> R(3); Big M[3] = {0, 0, 0};
    for (auto &r: R) r.reset(new BI(uint64_t(0)));
    std::vector<S> tok; size_t i = 0;
    while (i < p.size()) { size_t j = p.find(',', i); if (j == S::npos) j = p.size(); tok.push_back(p.substr(i, j - i)); i = j + 1; }
    bool ari = mode == "C15";
    for (const S &t: tok) {
        if (t.size() < 2) continue;
        int r = t[0] - 'a'; char o = t[1]; S arg = t.substr(2);
        u64 w = strtoull(arg.c_str(), 0, 10);
        Big want = M[r]; bool dead = false;
        int thrown = 0;
        try {
            switch (o) {
                case '"': { want = 0; for (char c: arg) want = want * 10 + (c - '0'); R[r].reset(); R[r].reset(new BI(arg.c_str(), arg.size())); break; }
                case '~': {    // n:pattern:seed[:index:limb] - that many limbs, set one by one
                    std::vector<u64> l = limbs(arg);
                    want = 0;
                    R[r].reset(new BI(uint64_t(l.back())));
                    boost::multiprecision::import_bits(want, l.begin(), l.end(), 64, false);
                    for (size_t k = l.size() - 1; k-- > 0;) { *R[r] <<= 64; *R[r] += uint64_t(l[k]); }
                    break;
                }
                case '=': want = w; if (w & 1) *R[r] = uint64_t(w); else R[r].reset(new BI(uint64_t(w))); break;
                case '+': want += w; *R[r] += uint64_t(w); break;
                case '*': want *= w; *R[r] *= uint64_t(w); break;
                case '.': want *= uint32_t(w); *R[r] *= uint32_t(w); break;
                case '<': if (want != 0) { if (w > 100000) want = LIM; else want <<= w; } *R[r] <<= size_t(w); break;
                case '5': if (w > 20000) { if (want != 0) want = LIM; } else want *= boost::multiprecision::pow(Big(5), (unsigned) w); R[r]->mulPow5((unsigned) w); break;
                case '@': { int q = arg[0] - 'a'; want = M[q]; if (arg.size() > 1) { BI c(*R[q]); *R[r] = c; } else *R[r] = *R[q]; break; }
                case '-': {
                    int q = arg[0] - 'a', z = arg[1] - 'a';
                    if (z == r || z == q) break;
                    int e = M[r] < M[q] ? -1 : M[r] > M[q] ? 1 : 0;
                    bool s = false; int th = 0;
                    try { s = R[r]->difference(*R[q], R[z].get()); } catch (const std::runtime_error &) { th = 1; }
                    if (th != (e == 0)) return ari || bad("difference of " + bs(M[r]) + " and " + bs(M[q]) + (th ? " throws" : " does not throw"));
                    if (e == 0) break;
                    M[z] = e < 0 ? Big(M[q] - M[r]) : Big(M[r] - M[q]);
                    if (s != (e < 0)) return ari || bad("difference of " + bs(M[r]) + " and " + bs(M[q]) + " reports the wrong order");
                    if (val(*R[z]) != M[z] || (R[z]->count() > 1 && R[z]->digit(R[z]->count() - 1) == 0))
                        return ari || bad("difference of " + bs(M[r]) + " and " + bs(M[q]) + " stores " + bs(val(*R[z])) + ", expected " + bs(M[z]));
                    break;
                }
                case '?': {
                    int q = arg[0] - 'a';
                    int e = M[r] < M[q] ? -1 : M[r] > M[q] ? 1 : 0, g = R[r]->compare(*R[q]);
                    if ((g < 0) != (e < 0) || (g > 0) != (e > 0)) return ari || bad("compare(" + bs(M[r]) + ", " + bs(M[q]) + ") is " + std::to_string(g));
                    if ((*R[r] == *R[q]) != (e == 0)) return ari || bad("== of " + bs(M[r]) + " and " + bs(M[q]));
                    u64 lw = (u64) (M[q] & Big(0xFFFFFFFFFFFFFFFFULL));
                    if ((*R[r] == uint64_t(lw)) != (M[r] == lw)) return ari || bad("== of " + bs(M[r]) + " and a word");
                    if (R[r]->isZero() != (M[r] == 0)) return ari || bad("isZero of " + bs(M[r]));
                    break;
                }
            }
        } catch (const std::runtime_error &) { thrown = 1; } catch (...) { thrown = 2; }
        if (o == '-' || o == '?') continue;
        dead = want >= LIM;
        if (thrown == 2) return !ari || bad("operation " + t.substr(0, 40) + " throws something else than a runtime error");
        if (dead) {
            if (!thrown) return !ari || bad("operation " + t.substr(0, 40) + " on " + bs(M[r]) + " cannot be stored but does not throw");
            return true;       // the object is in an unspecified state
        }
        if (thrown) return !ari || bad("operation " + t.substr(0, 40) + " on " + bs(M[r]) + " throws although the result fits");
        Big got = val(*R[r]);
        if (got != want || (R[r]->count() > 1 && R[r]->digit(R[r]->count() - 1) == 0))
            return !ari || bad("operation " + t.substr(0, 40) + " on " + bs(M[r]) + " gives " + bs(got) + ", expected " + bs(want));
        M[r] = want;
    }
    return true;
}
static u64 gw()
{
    u64 r = rnd();
    if (rnd(24) == 0) return gdict();
    switch (rnd(7)) {
        case 0: return r; case 1: return r >> rnd(64); case 2: return ~0ULL - rnd(3); case 3: return rnd(4);
        case 4: return 1ULL << rnd(64); case 5: return 0xFFFFFFFFULL << rnd(33); default: return u64(0) - (r >> rnd(64));
    }
}
static S U(u64 v) { return std::to_string((unsigned long long) v); }
static S gdig()
{
    S s; size_t n = rnd(16) == 0 ? 1 + gdict() % 600 : rnd(8) == 0 ? 1 + rnd(300) : rnd(400) == 0 ? 8000 + rnd(30) : 1 + rnd(60);
    int k = (int) rnd(4);
    for (size_t i = 0; i < n; i++) s += k == 0 ? '9' : k == 1 ? char(i == 0 ? '1' : '0') : k == 2 && i < n / 2 ? '0' : char('0' + rnd(10));
    return s;
}
static Case gen(const S &m, u64 i)
{
    Case c{'B', 0, 0, ""};
    S &p = c.s;
    (void) i;
    if (rnd(12) == 0) {     // the capacity limit
        p = "a=" + U(gw() | 1) + ",";
        u64 sh = 64 * (CAP - 3) + rnd(200);
        if (rnd(2)) p += "a<" + U(sh) + ",";
        else p += "a<" + U(64 * (CAP - 6)) + ",a*" + U(gw()) + ",a*" + U(~0ULL) + ",a<" + U(rnd(300)) + ",";
        if (rnd(3) == 0) {  // all ones, then a carry out of the top
            p = "a~" + U(CAP) + ":1:1,";
            p += "a+" + U(rnd(2)) + ",";
        }
    }
    if (rnd(3) == 0) {      // many limbs, and a second value that is close to the first
        u64 cnt = rnd(12) == 0 ? 1 + gdict() % CAP : rnd(3) ? 1 + rnd(12) : rnd(4) ? 1 + rnd(70) : CAP - rnd(4);
        S base = U(cnt) + ":" + U(rnd(8)) + ":" + U(rnd(100000));
        p += "a~" + base + ",";
        u64 at = rnd(3) == 0 ? rnd(cnt) : rnd(2) ? cnt - 1 : 0;
        switch (rnd(4)) {
            case 0: p += "b~" + U(std::max<u64>(1, cnt - rnd(2))) + ":" + U(rnd(8)) + ":" + U(rnd(100000)) + ","; break;
            case 1: p += "b@a,"; break;
            default: p += "b~" + base + ":" + U(at) + ":" + U(gw()) + ","; break;
        }
        if (m == "C16") p += "a?b,b?a,a-bc,b-ac,a?c,";
        else {
            static const u64 P[] = {0, 1, 2, 10, 0xFFFFFFFFULL, 0x100000000ULL, ~0ULL, 1ULL << 63};
            switch (rnd(6)) {
                case 0: p += "c@a,c+" + U(gw()) + ","; break;
                case 1: p += "c@ac,c*" + U(rnd(2) ? P[rnd(8)] : gw()) + ","; break;
                case 2: p += "c@ac,c." + U((rnd(2) ? P[rnd(8)] : gw()) & 0xFFFFFFFF) + ","; break;
                case 3: p += "c@b,c<" + U(rnd(2) ? 64 * rnd(5) : rnd(300)) + ","; break;
                case 4: p += "b@ac,b<" + U(64 * (CAP - cnt) + rnd(2) * rnd(64)) + ","; break;
                default: p += "c@a,c5" + U(rnd(60)) + ","; break;
            }
        }
        if (cnt > 100) return c;
    }
    int n = 1 + (int) rnd(14);
    for (int k = 0; k < n; k++) {
        char r = char('a' + rnd(3)), q = char('a' + rnd(3)), z = char('a' + rnd(3));
        p += r;
        switch (rnd(m == "C16" ? 16 : 11)) {
            case 0: p += '"' + gdig(); break;
            case 1: p += '=' + U(gw()); break;
            case 2: case 3: p += '+' + U(gw()); break;
            case 4: case 5: p += '*' + U(gw()); break;
            case 6: p += '.' + U(gw() & 0xFFFFFFFF); break;
            case 7: p += '<' + U(rnd(12) == 0 ? gdict() % 30000 : rnd(3) ? rnd(200) : rnd(3) ? 64 * rnd(6) : rnd(5000)); break;
            case 8: p += '5' + U(rnd(12) == 0 ? gdict() % 3000 : rnd(3) ? rnd(60) : rnd(900)); break;
            case 9: p += S("@") + q + (rnd(2) ? "c" : ""); break;
            case 10: p += '<' + U(64 * rnd(4)); break;
            case 11: case 12: p += S("-") + q + z; break;
            case 13: p += S("@") + q + ","; p += r; p += '+' + U(rnd(3)); p += ","; p += r; p += S("?") + q; break;
            case 14: p += S("@") + q + ","; p += r; p += '*' + U(1 + rnd(2)); p += ","; p += r; p += S("?") + q; p += ","; p += r; p += S("-") + q + z; break;
            default: p += S("?") + q; break;
        }
        p += ",";
    }
    return c;
}
static bool check_(const S &m, const Case &c) { return c.k != 'B' || prog(c.s, m); }
#endif

static bool check(const S &m, const Case &c)
{
    try { return check_(m, c); }
    catch (const std::exception &e) { return bad(S("throws ") + e.what()); }
    catch (...) { return bad("throws something that is not a std::exception"); }
}

static const Case *current;
static std::atomic<bool> reported(false);
static void died(const char *why)
{
    if (!current || reported.exchange(true)) return;
    printf("FAIL\t%s\t%s\n", enc(*current).c_str(), why);
    fflush(stdout);
}
static void on_death() { died("stopped by the sanitizer (report on stderr)"); }
static void on_signal(int s)
{
    died(s == SIGTERM ? "does not finish" : "crashes");
    _exit(1);
}
#ifdef SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

int main(int argc, char **argv)
{
#ifdef SAN
    __sanitizer_set_death_callback(on_death);
#else
    signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal);
    (void) on_death;
#endif
    signal(SIGTERM, on_signal);
    if (argc < 4) return 3;
    S mode = argv[1];
    if (S(argv[2]) == "--case") {
        Case c = dec(argv[3]);
        current = &c;
        if (!check(mode, c)) { printf("FAIL\t%s\t%s\n", enc(c).c_str(), err.c_str()); return 1; }
        printf("held\t%s\n", enc(c).c_str());
        return 0;
    }
    dictionary();
    u64 seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); u64 shard = strtoull(argv[4], 0, 10), ns = strtoull(argv[5], 0, 10);
    u64 n = 0;
    for (int i = 6; i < argc; i++) {
        Case c = dec(argv[i]);
        current = &c;
        n++;
        if (!check(mode, c)) { printf("FAIL\t%s\t%s\n", enc(c).c_str(), err.c_str()); return 1; }
    }
    auto t0 = std::chrono::steady_clock::now();
    S sample;
    current = 0;
    u64 rst = (seed * 0x9E3779B97F4A7C15ULL) ^ ((shard + 1) * 0xD1342543DE82EF95ULL);
    if (!rst) rst = 1;
    rs = rst;
    for (u64 i = shard; ; i += ns) {
        Case c = gen(mode, i);
        u64 save = rs;
        n++;
        if (n == 100) sample = enc(c);
        current = &c;
        if (!check(mode, c)) { printf("FAIL\t%s\t%s\n", enc(c).c_str(), err.c_str()); return 1; }
        rs = save;
        if (n % 16 == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    printf("DONE\t%llu\t%s\n", (unsigned long long) n, sample.c_str());
    return 0;
}
