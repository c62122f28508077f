// Stand-in for the rational numbers of the IMath library; see imath.h.
#pragma once
#include "imath.h"

struct lpx_imath_q { lpx_imath_z num; lpx_imath_z den; };
typedef lpx_imath_q *mp_rat;

inline mp_int mp_rat_numer_ref(mp_rat r) { return &r->num; }
inline mp_int mp_rat_denom_ref(mp_rat r) { return &r->den; }
inline mp_result mp_rat_init(mp_rat r) { mp_int_init(&r->num); mp_int_init(&r->den); return mp_int_set_value(&r->den, 1); }
inline void mp_rat_clear(mp_rat r) { mp_int_clear(&r->num); mp_int_clear(&r->den); }
inline mp_result mp_rat_reduce(mp_rat r) {
    if (mpz_sgn(r->den.p) == 0) { return MP_UNDEF; }
    if (mpz_sgn(r->num.p) == 0) { return mp_int_set_value(&r->den, 1); }
    mpz_class g;
    mpz_gcd(g.get_mpz_t(), r->num.p, r->den.p);
    mpz_divexact(r->num.p, r->num.p, g.get_mpz_t());
    mpz_divexact(r->den.p, r->den.p, g.get_mpz_t());
    if (mpz_sgn(r->den.p) < 0) { mpz_neg(r->num.p, r->num.p); mpz_neg(r->den.p, r->den.p); }
    return MP_OK;
}
inline mp_result mp_rat_set_value(mp_rat r, mp_small n, mp_small d) { mp_int_set_value(&r->num, n); mp_int_set_value(&r->den, d); return mp_rat_reduce(r); }
inline mp_result mp_rat_copy(mp_rat a, mp_rat c) { mp_int_copy(&a->num, &c->num); return mp_int_copy(&a->den, &c->den); }
inline mp_result mp_rat_neg(mp_rat a, mp_rat c) { mp_int_neg(&a->num, &c->num); return mp_int_copy(&a->den, &c->den); }
inline mp_result lpx_rat_set(mp_rat c, mpz_class const &n, mpz_class const &d) { mpz_set(c->num.p, n.get_mpz_t()); mpz_set(c->den.p, d.get_mpz_t()); return mp_rat_reduce(c); }
inline mpz_class lpx_z(lpx_imath_z const &z) { mpz_class r; mpz_set(r.get_mpz_t(), z.p); return r; }
inline mp_result mp_rat_add(mp_rat a, mp_rat b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) * lpx_z(b->den) + lpx_z(b->num) * lpx_z(a->den), lpx_z(a->den) * lpx_z(b->den)); }
inline mp_result mp_rat_sub(mp_rat a, mp_rat b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) * lpx_z(b->den) - lpx_z(b->num) * lpx_z(a->den), lpx_z(a->den) * lpx_z(b->den)); }
inline mp_result mp_rat_mul(mp_rat a, mp_rat b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) * lpx_z(b->num), lpx_z(a->den) * lpx_z(b->den)); }
inline mp_result mp_rat_div(mp_rat a, mp_rat b, mp_rat c) {
    if (mpz_sgn(b->num.p) == 0) { return MP_UNDEF; }
    return lpx_rat_set(c, lpx_z(a->num) * lpx_z(b->den), lpx_z(a->den) * lpx_z(b->num));
}
inline mp_result mp_rat_add_int(mp_rat a, mp_int b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) + lpx_z(*b) * lpx_z(a->den), lpx_z(a->den)); }
inline mp_result mp_rat_sub_int(mp_rat a, mp_int b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) - lpx_z(*b) * lpx_z(a->den), lpx_z(a->den)); }
inline mp_result mp_rat_mul_int(mp_rat a, mp_int b, mp_rat c) { return lpx_rat_set(c, lpx_z(a->num) * lpx_z(*b), lpx_z(a->den)); }
inline mp_result mp_rat_div_int(mp_rat a, mp_int b, mp_rat c) {
    if (mpz_sgn(b->p) == 0) { return MP_UNDEF; }
    return lpx_rat_set(c, lpx_z(a->num), lpx_z(a->den) * lpx_z(*b));
}
inline int mp_rat_compare(mp_rat a, mp_rat b) { mpz_class l = lpx_z(a->num) * lpx_z(b->den), r = lpx_z(b->num) * lpx_z(a->den); return lpx_sign(cmp(l, r)); }
inline int mp_rat_compare_value(mp_rat r, mp_small n, mp_small d) { mpz_class l = lpx_z(r->num) * d, x = lpx_z(r->den) * n; return lpx_sign(cmp(l, x)); }
inline int mp_rat_compare_zero(mp_rat r) { return mpz_sgn(r->num.p); }
inline mp_result mp_rat_string_len(mp_rat r, mp_size radix) {
    auto n = mp_int_string_len(&r->num, radix);
    return mp_int_compare_zero(&r->num) == 0 ? n : n + mp_int_string_len(&r->den, radix);
}
inline mp_result mp_rat_to_string(mp_rat r, mp_size radix, char *str, int limit) {
    auto res = mp_int_to_string(&r->num, radix, str, limit);
    if (res != MP_OK || mp_int_compare_zero(&r->num) == 0) { return res; }
    auto n = static_cast<int>(strlen(str));
    if (n + 1 >= limit) { return MP_TRUNC; }
    str[n] = '/';
    return mp_int_to_string(&r->den, radix, str + n + 1, limit - n - 1);
}
// "num" or "num/den", both with optional white space
inline mp_result mp_rat_read_string(mp_rat r, mp_size radix, char const *str) {
    char *end = nullptr;
    auto res = mp_int_read_cstring(&r->num, radix, str, &end);
    if (res != MP_OK && res != MP_TRUNC) { return res; }
    while (isspace(static_cast<unsigned char>(*end))) { ++end; }
    if (*end != '/') {
        mp_int_set_value(&r->den, 1);
        return *end ? MP_TRUNC : MP_OK;
    }
    res = mp_int_read_cstring(&r->den, radix, end + 1, &end);
    if (res != MP_OK) { return res; }
    return mp_rat_reduce(r);
}

#define mpq_t lpx_imath_q
