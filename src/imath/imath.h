// Stand-in for the IMath library (https://github.com/creachadair/imath), which is a
// submodule that is absent here. It implements the functions used by number_imath.hh
// as documented by IMath, on top of GMP. Only the wrapper code of the repository is
// under test; this file is part of the trusted base.
#pragma once
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <gmpxx.h>
#include <string>

typedef int mp_result;
typedef long mp_small;
typedef unsigned mp_size;
static mp_result const MP_OK = 0, MP_FALSE = 0, MP_TRUE = -1, MP_MEMORY = -2, MP_RANGE = -3, MP_UNDEF = -4, MP_TRUNC = -5, MP_BADARG = -6;

// the limbs are owned through a pointer, as in IMath (a use after clear or without init is visible to sanitizers)
struct lpx_imath_z { __mpz_struct *p; };
typedef lpx_imath_z *mp_int;

inline char const *mp_error_string(mp_result r) {
    static char const *s[] = {"error code 0", "boolean true", "out of memory", "argument out of range", "result undefined", "output truncated", "invalid argument"};
    return -r >= 0 && -r <= 6 ? s[-r] : "unknown result code";
}
inline mp_result mp_int_init(mp_int z) { z->p = static_cast<__mpz_struct *>(malloc(sizeof(__mpz_struct))); mpz_init(z->p); return MP_OK; }
inline void mp_int_clear(mp_int z) { if (z->p) { mpz_clear(z->p); free(z->p); z->p = nullptr; } }
inline mp_result mp_int_copy(mp_int a, mp_int c) { if (a != c) { mpz_set(c->p, a->p); } return MP_OK; }
inline void mp_int_swap(mp_int a, mp_int c) { if (a != c) { auto *t = a->p; a->p = c->p; c->p = t; } }
inline mp_result mp_int_set_value(mp_int z, mp_small v) { mpz_set_si(z->p, v); return MP_OK; }
inline mp_result mp_int_neg(mp_int a, mp_int c) { mpz_neg(c->p, a->p); return MP_OK; }
inline mp_result mp_int_add(mp_int a, mp_int b, mp_int c) { mpz_add(c->p, a->p, b->p); return MP_OK; }
inline mp_result mp_int_sub(mp_int a, mp_int b, mp_int c) { mpz_sub(c->p, a->p, b->p); return MP_OK; }
inline mp_result mp_int_mul(mp_int a, mp_int b, mp_int c) { mpz_mul(c->p, a->p, b->p); return MP_OK; }
inline mp_result mp_int_add_value(mp_int a, mp_small v, mp_int c) { mpz_class t{v}; mpz_add(c->p, a->p, t.get_mpz_t()); return MP_OK; }
inline mp_result mp_int_sub_value(mp_int a, mp_small v, mp_int c) { mpz_class t{v}; mpz_sub(c->p, a->p, t.get_mpz_t()); return MP_OK; }
inline mp_result mp_int_mul_value(mp_int a, mp_small v, mp_int c) { mpz_class t{v}; mpz_mul(c->p, a->p, t.get_mpz_t()); return MP_OK; }
// quotient truncated towards zero; q and r may be null
inline mp_result mp_int_div(mp_int a, mp_int b, mp_int q, mp_int r) {
    if (mpz_sgn(b->p) == 0) { return MP_UNDEF; }
    mpz_class tq, tr;
    mpz_tdiv_qr(tq.get_mpz_t(), tr.get_mpz_t(), a->p, b->p);
    if (q) { mpz_set(q->p, tq.get_mpz_t()); }
    if (r) { mpz_set(r->p, tr.get_mpz_t()); }
    return MP_OK;
}
inline mp_result mp_int_gcd(mp_int a, mp_int b, mp_int c) {
    if (mpz_sgn(a->p) == 0 && mpz_sgn(b->p) == 0) { return MP_UNDEF; }
    mpz_gcd(c->p, a->p, b->p);
    return MP_OK;
}
inline int lpx_sign(int x) { return (x > 0) - (x < 0); }
inline int mp_int_compare(mp_int a, mp_int b) { return lpx_sign(mpz_cmp(a->p, b->p)); }
inline int mp_int_compare_value(mp_int a, mp_small v) { return lpx_sign(mpz_cmp_si(a->p, v)); }
inline int mp_int_compare_zero(mp_int a) { return mpz_sgn(a->p); }
inline mp_result mp_int_to_int(mp_int z, mp_small *out) {
    if (!mpz_fits_slong_p(z->p)) { return MP_RANGE; }
    if (out) { *out = mpz_get_si(z->p); }
    return MP_OK;
}
// number of bytes including sign and terminating zero; possibly too large by some
inline mp_result mp_int_string_len(mp_int z, mp_size radix) { return static_cast<mp_result>(mpz_sizeinbase(z->p, static_cast<int>(radix))) + 2; }
inline mp_result mp_int_to_string(mp_int z, mp_size radix, char *str, int limit) {
    mpz_class t;
    mpz_set(t.get_mpz_t(), z->p);
    auto s = t.get_str(static_cast<int>(radix));
    if (limit < 1) { return MP_TRUNC; }
    if (static_cast<int>(s.size()) + 1 > limit) { return MP_TRUNC; }
    memcpy(str, s.c_str(), s.size() + 1);
    return MP_OK;
}
// Reads optional white space, a sign and digits. The number read so far is stored; MP_TRUNC
// tells that characters are left.
inline mp_result mp_int_read_cstring(mp_int z, mp_size radix, char const *str, char **end) {
    while (isspace(static_cast<unsigned char>(*str))) { ++str; }
    bool neg = false;
    if (*str == '-') { neg = true; ++str; }
    else if (*str == '+') { ++str; }
    std::string digits;
    while (*str >= '0' && *str <= '9' && static_cast<mp_size>(*str - '0') < radix) { digits.push_back(*str++); }
    if (digits.empty()) { mpz_set_si(z->p, 0); }
    else { mpz_set_str(z->p, digits.c_str(), static_cast<int>(radix)); }
    if (neg) { mpz_neg(z->p, z->p); }
    if (end) { *end = const_cast<char *>(str); }
    return *str ? MP_TRUNC : MP_OK;
}
inline mp_result mp_int_read_string(mp_int z, mp_size radix, char const *str) { return mp_int_read_cstring(z, radix, str, nullptr); }

#define mpz_t lpx_imath_z
