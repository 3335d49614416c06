// Callers of the public templates, one per supported type: they make the compiler
// instantiate the real header code.  No logic of their own.
#include "lexi/lexi.hpp"
#include <new>
#include <string>

typedef signed char schar;
typedef unsigned char uchar;
typedef unsigned short ushort_;
typedef unsigned int uint_;
typedef unsigned long ulong_;
typedef long long llong;
typedef unsigned long long ullong;
typedef std::nullptr_t null_t;
typedef long double ldouble;

enum class E_schar: schar {};
enum class E_uchar: uchar {};
enum class E_short: short {};
enum class E_ushort: unsigned short {};
enum class E_int: int {};
enum class E_uint: unsigned int {};
enum class E_long: long {};
enum class E_ulong: unsigned long {};
enum class E_llong: long long {};
enum class E_ullong: unsigned long long {};
enum class E_char: char {};
enum E_plain {E_plain_first, E_plain_last = 0xFFFFFFFF};

struct Views
{
    size_t size, length;
    const char *data, *cstr;
    std::string s, e, j, c;
};

struct DerivedString: std::string
{};

#define FMT(N, T) \
    extern "C" std::string d_lexi_##N(T v) { return lexi::lexi(v); } \
    extern "C" std::string d_string_##N(T v) { return lexi::string(v); } \
    extern "C" std::string d_escape_##N(T v) { return lexi::escape(v); } \
    extern "C" std::string d_jsonify_##N(T v) { return lexi::jsonify(v); }

#define EXT(N, T) \
    extern "C" T d_ext_##N(const std::string &s) { return lexi::lexi<T>(s); } \
    extern "C" T d_extc_##N(const char *s) { return lexi::lexi<T>(s); }

#define RT(N, T) \
    extern "C" T d_rt_##N(T v) { return lexi::lexi<T>(lexi::lexi(v)); } \
    extern "C" T d_rtj_##N(T v) { return lexi::lexi<T>(lexi::jsonify(v)); }

#define INTS(M) \
    M(schar, schar) M(uchar, uchar) M(short, short) M(ushort, unsigned short) M(int, int) M(uint, unsigned int) \
    M(long, long) M(ulong, unsigned long) M(llong, llong) M(ullong, ullong)
#define ENUMS(M) \
    M(E_schar, E_schar) M(E_uchar, E_uchar) M(E_short, E_short) M(E_ushort, E_ushort) M(E_int, E_int) M(E_uint, E_uint) \
    M(E_long, E_long) M(E_ulong, E_ulong) M(E_llong, E_llong) M(E_ullong, E_ullong) M(E_char, E_char) M(E_plain, E_plain)
#define FLOATS(M) M(float, float) M(double, double) M(ldouble, ldouble)

INTS(FMT) INTS(EXT) INTS(RT)
ENUMS(FMT) ENUMS(EXT) ENUMS(RT)
FLOATS(FMT) FLOATS(EXT) FLOATS(RT)
FMT(bool, bool) EXT(bool, bool)
FMT(null, null_t) EXT(null, null_t)
FMT(char, char) EXT(char, char)
extern "C" std::string d_lexi_spos(std::streamoff v) { return lexi::lexi(std::streampos(v)); }
extern "C" std::string d_string_spos(std::streamoff v) { return lexi::string(std::streampos(v)); }
extern "C" std::string d_escape_spos(std::streamoff v) { return lexi::escape(std::streampos(v)); }
extern "C" std::string d_jsonify_spos(std::streamoff v) { return lexi::jsonify(std::streampos(v)); }
extern "C" std::streamoff d_ext_spos(const std::string &s) { return std::streamoff(lexi::lexi<std::streampos>(s)); }
extern "C" std::streamoff d_rt_spos(std::streamoff v) { return std::streamoff(lexi::lexi<std::streampos>(lexi::lexi(std::streampos(v)))); }

#define STRS(N, T) \
    extern "C" std::string d_lexi_##N(T v) { return lexi::lexi(v); } \
    extern "C" std::string d_string_##N(T v) { return lexi::string(v); } \
    extern "C" std::string d_escape_##N(T v) { return lexi::escape(v); } \
    extern "C" std::string d_jsonify_##N(T v) { return lexi::jsonify(v); }
typedef const std::string &strref;
typedef const DerivedString &dstrref;
typedef const char *ccp;
typedef char *cp;
typedef const char (&arr3)[3];
typedef const char (&arr1)[1];
STRS(str, strref)
STRS(dstr, dstrref)
STRS(ccp, ccp)
STRS(cp, cp)
STRS(arr3, arr3)
STRS(arr1, arr1)

// formatter objects, their views and their copies
template <typename F>
static inline void observe(const F *f, Views *o)
{
    o->size = f->size();
    o->length = f->length();
    o->data = f->data();
    o->cstr = f->c_str();
    o->s = f->string();
    o->e = f->escape();
    o->j = f->jsonify();
    o->c = std::string(*f);
}

#define OBJ(N, F, V) \
    extern "C" size_t d_sizeof_##N() { return sizeof(F); } \
    extern "C" void d_make_##N(F *f, V v) { new (f) F(v); } \
    extern "C" void d_observe_##N(const F *f, Views *o) { new (o) Views(); observe(f, o); } \
    extern "C" void d_copy_##N(F *f, V v) { F a(v); new (f) F(a); } \
    extern "C" void d_copycopy_##N(F *f, V v) { F a(v); F b(a); new (f) F(b); } \
    extern "C" void d_move_##N(F *f, V v) { F a(v); new (f) F(static_cast<F&&>(a)); } \
    extern "C" void d_assign_##N(F *f, V v, V w) { F a(v); new (f) F(w); *f = a; } \
    extern "C" void d_massign_##N(F *f, V v, V w) { new (f) F(w); *f = F(v); } \
    extern "C" void d_self_##N(F *f, V v) { new (f) F(v); F &g = *f; *f = g; } \
    extern "C" void d_copychange_##N(F *f, V v, V w) { F a(v); new (f) F(a); a = F(w); } \
    extern "C" void d_assignback_##N(F *f, V v, V w) { F a(v); { F b(a); a = F(w); new (f) F(w); *f = b; } }

OBJ(Int_schar, lexi::FormatInt, schar)
OBJ(Int_uchar, lexi::FormatInt, uchar)
OBJ(Int_short, lexi::FormatInt, short)
OBJ(Int_ushort, lexi::FormatInt, unsigned short)
OBJ(Int_int, lexi::FormatInt, int)
OBJ(Int_uint, lexi::FormatInt, unsigned int)
OBJ(Int_long, lexi::FormatInt, long)
OBJ(Int_ulong, lexi::FormatInt, unsigned long)
OBJ(Int_llong, lexi::FormatInt, llong)
OBJ(Int_ullong, lexi::FormatInt, ullong)
OBJ(Enum_schar, lexi::FormatEnum, E_schar)
OBJ(Enum_uint, lexi::FormatEnum, E_uint)
OBJ(Enum_llong, lexi::FormatEnum, E_llong)
OBJ(Enum_ullong, lexi::FormatEnum, E_ullong)
OBJ(Float_float, lexi::FormatFloat, float)
OBJ(Float_double, lexi::FormatFloat, double)
OBJ(Float_ldouble, lexi::FormatFloat, ldouble)
OBJ(Bool, lexi::FormatBool, bool)
OBJ(Null, lexi::FormatNull, null_t)
OBJ(Char, lexi::FormatChar, char)
OBJ(UChar, lexi::FormatChar, uchar)

extern "C" void d_makedef_Null(lexi::FormatNull *f) { new (f) lexi::FormatNull(); }
extern "C" void d_copydef_Null(lexi::FormatNull *f) { lexi::FormatNull a; new (f) lexi::FormatNull(a); }

#define EXOBJ(N, X, T) \
    extern "C" T d_exobj_##N(const std::string &s) { return T(lexi::X(s)); }
EXOBJ(schar, ExtractInt, schar) EXOBJ(uchar, ExtractInt, uchar) EXOBJ(short, ExtractInt, short)
EXOBJ(ushort, ExtractInt, ushort_) EXOBJ(int, ExtractInt, int) EXOBJ(uint, ExtractInt, uint_)
EXOBJ(long, ExtractInt, long) EXOBJ(ulong, ExtractInt, ulong_) EXOBJ(llong, ExtractInt, llong)
EXOBJ(ullong, ExtractInt, ullong)
EXOBJ(char, ExtractChar, char) EXOBJ(charu, ExtractChar, uchar)
EXOBJ(bool, ExtractBool, bool)
EXOBJ(float, ExtractFloat, float) EXOBJ(double, ExtractFloat, double) EXOBJ(ldouble, ExtractFloat, ldouble)
EXOBJ(null, ExtractNull, null_t)
#define EXENUM(N, T) EXOBJ(N, ExtractEnum, T)
ENUMS(EXENUM)
