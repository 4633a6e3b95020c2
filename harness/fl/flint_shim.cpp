// Plain implementations of the FLINT functions declared in flint_shim.h: schoolbook algorithms, no tuning.
#include "flint_shim.h"
#include <vector>
#include <string>
#include <stdexcept>
#include <algorithm>
typedef unsigned __int128 u128;
typedef std::vector<ulong> V;
// ---- memory, errors, printing
void * flint_malloc(size_t n) { void * p = malloc(n ? n : 1); if (!p) abort(); return p; }
void * flint_calloc(size_t n, size_t m) { void * p = calloc(n ? n : 1, m ? m : 1); if (!p) abort(); return p; }
void * flint_realloc(void * p, size_t n) { p = realloc(p, n ? n : 1); if (!p) abort(); return p; }
void flint_free(void * p) { free(p); }
void * flint_aligned_alloc(size_t al, size_t n) { return aligned_alloc(al, (n + al - 1) / al * al); }
void flint_aligned_free(void * p) { free(p); }
void flint_cleanup(void) {} void flint_cleanup_master(void) {}
void (*flint_shim_throw)(const char *) = nullptr;
void flint_throw(flint_err_t, const char * msg, ...) {
    char buf[512]; va_list ap; va_start(ap, msg); std::string f(msg); size_t k;
    while ((k = f.find("%wd")) != std::string::npos) f.replace(k, 3, "%ld");
    while ((k = f.find("%wu")) != std::string::npos) f.replace(k, 3, "%lu");
    vsnprintf(buf, sizeof buf, f.c_str(), ap); va_end(ap);
    if (flint_shim_throw) flint_shim_throw(buf);
    throw std::runtime_error(std::string("flint_throw: ") + buf);
}
ulong flint_shim_n = 0, flint_shim_ninv = 0;
void flint_shim_mod_check(ulong n, ulong ninv, ulong norm) { if (!n) return; if (norm != (ulong) __builtin_clzl(n)) flint_shim_pre("nmod_t used with a norm that does not belong to its modulus"); if (ninv != n_preinvert_limb(n)) flint_shim_pre("nmod_t used with a ninv that does not belong to its modulus"); flint_shim_n = n; flint_shim_ninv = ninv; }
void flint_shim_pre(const char * msg) { flint_throw(FLINT_ERROR, "%s", msg); abort(); }
void flint_abort(void) { throw std::runtime_error("flint_abort"); }
static std::string fixfmt(const char * fmt) { // %wd, %wu, %wx -> l; %{...} is passed through
    std::string r; for (const char * p = fmt; *p; p++) { r += *p; if (*p == '%') { p++; while (*p && strchr("0123456789.-+ #*", *p)) r += *p++; if (*p == 'w') r += 'l'; else if (*p) r += *p; else break; } } return r; }
int flint_printf(const char * fmt, ...) { va_list ap; va_start(ap, fmt); std::string f = fixfmt(fmt); int r = vprintf(f.c_str(), ap); va_end(ap); return r; }
int flint_fprintf(FILE * o, const char * fmt, ...) { va_list ap; va_start(ap, fmt); std::string f = fixfmt(fmt); int r = vfprintf(o, f.c_str(), ap); va_end(ap); return r; }
int flint_sprintf(char * s, const char * fmt, ...) { va_list ap; va_start(ap, fmt); std::string f = fixfmt(fmt); int r = vsprintf(s, f.c_str(), ap); va_end(ap); return r; }
// ---- ulong_extras
ulong n_randbits(flint_rand_t st, unsigned int bits) { if (!bits) return 0; ulong x = n_randlimb(st); if (bits < 64) x &= (1UL << bits) - 1; return x | (1UL << (bits - 1)); }
ulong n_randtest_bits(flint_rand_t st, int bits) { if (bits <= 0) return 0; ulong x = n_randlimb(st); if (n_randint(st, 3) == 0) x = (n_randint(st, 2) ? ~0UL : 0) ^ (1UL << n_randint(st, 64)); if (bits < 64) x &= (1UL << bits) - 1; return x | (1UL << (bits - 1)); }
ulong n_randtest(flint_rand_t st) { return n_randtest_bits(st, n_randint(st, 65)); }
ulong n_randtest_not_zero(flint_rand_t st) { ulong x; while (!(x = n_randtest(st))) {} return x; }
ulong n_randtest_prime(flint_rand_t st, int) { return n_randprime(st, 2 + n_randint(st, 63), 1); }
ulong n_powmod2(ulong a, slong e, ulong n) { if (e < 0) { a = n_invmod(a, n); e = -e; } ulong r = 1 % n; a %= n; for (; e; e >>= 1) { if (e & 1) r = n_mulmod2(r, a, n); a = n_mulmod2(a, a, n); } return r; }
ulong nmod_pow_ui(ulong a, ulong e, nmod_t m) { ulong r = 1 % m.n; for (; e; e >>= 1) { if (e & 1) r = nmod_mul(r, a, m); a = nmod_mul(a, a, m); } return r; }
int n_is_prime(ulong n) { if (n < 2) return 0; for (ulong p : {2UL,3UL,5UL,7UL,11UL,13UL,17UL,19UL,23UL,29UL,31UL,37UL}) { if (n == p) return 1; if (n % p == 0) return 0; }
    ulong d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
    for (ulong a : {2UL,3UL,5UL,7UL,11UL,13UL,17UL,19UL,23UL,29UL,31UL,37UL}) { ulong x = 1, b = a, e = d; for (; e; e >>= 1) { if (e & 1) x = n_mulmod2(x, b, n); b = n_mulmod2(b, b, n); } if (x == 1 || x == n - 1) continue; int ok = 0; for (int i = 1; i < s; i++) { x = n_mulmod2(x, x, n); if (x == n - 1) { ok = 1; break; } } if (!ok) return 0; }
    return 1; }
ulong n_nextprime(ulong n, int) { if (n < 2) return 2; if (n >= 18446744073709551557UL) flint_throw(FLINT_ERROR, "n_nextprime"); n += 1 + (n & 1); while (!n_is_prime(n)) n += 2; return n; }
ulong n_randprime(flint_rand_t st, ulong bits, int) { if (bits < 2) flint_throw(FLINT_ERROR, "n_randprime"); if (bits == 2) return 2 + n_randint(st, 2); for (;;) { ulong x = n_randbits(st, bits) | 1; if (n_is_prime(x)) return x; } }
ulong n_gcd(ulong a, ulong b) { while (b) { ulong t = a % b; a = b; b = t; } return a; }
ulong n_invmod(ulong a, ulong n) { if (n == 1) return 0; __int128 r0 = n, r1 = a % n, s0 = 0, s1 = 1; while (r1) { __int128 q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; } if (r0 != 1) flint_throw(FLINT_IMPINV, "Cannot invert modulo %wd*%wd", (slong) r0, (slong) (n / (ulong) r0)); if (s0 < 0) s0 += n; return (ulong) s0; }
ulong n_pow(ulong n, ulong e) { ulong r = 1; while (e--) r *= n; return r; }
ulong n_sqrt(ulong n) { ulong r = (ulong) sqrtl((long double) n); while ((u128) r * r > n) r--; while ((u128) (r + 1) * (r + 1) <= n) r++; return r; }
ulong n_cbrt(ulong n) { ulong r = (ulong) cbrtl((long double) n); while ((u128) r * r * r > n) r--; while ((u128) (r + 1) * (r + 1) * (r + 1) <= n) r++; return r; }
ulong n_preinvert_limb(ulong n) { if (!n) return 0; n <<= __builtin_clzl(n); return (ulong) ((((u128) ~n) << 64 | ~0UL) / n); }
slong n_flog(ulong n, ulong b) { slong r = 0; while (n >= b) n /= b, r++; return r; }
slong n_clog(ulong n, ulong b) { slong r = n_flog(n, b); u128 p = 1; for (slong i = 0; i < r; i++) p *= b; return p < n ? r + 1 : r; }
ulong n_clog2(ulong n) { return FLINT_CLOG2(n); }
ulong n_primitive_root_prime(ulong p) { if (p == 2) return 1; V f; ulong m = p - 1; for (ulong q = 2; q * q <= m && q < 2000000; q++) if (m % q == 0) { f.push_back(q); while (m % q == 0) m /= q; } if (m > 1) f.push_back(m); for (ulong a = 2;; a++) { int ok = 1; for (ulong q : f) if (n_powmod2(a, (p - 1) / q, p) == 1) { ok = 0; break; } if (ok) return a; } }
// ---- perm
slong * _perm_init(slong n) { slong * v = (slong *) flint_malloc(n * sizeof(slong)); _perm_one(v, n); return v; }
void _perm_one(slong * v, slong n) { for (slong i = 0; i < n; i++) v[i] = i; }
void _perm_set(slong * r, const slong * v, slong n) { for (slong i = 0; i < n; i++) r[i] = v[i]; }
void _perm_inv(slong * r, const slong * v, slong n) { std::vector<slong> t(v, v + n); for (slong i = 0; i < n; i++) r[t[i]] = i; }
void _perm_compose(slong * r, const slong * a, const slong * b, slong n) { std::vector<slong> t(n); for (slong i = 0; i < n; i++) t[i] = a[b[i]]; for (slong i = 0; i < n; i++) r[i] = t[i]; }
int _perm_parity(const slong * v, slong n) { std::vector<char> s(n); int p = 0; for (slong i = 0; i < n; i++) if (!s[i]) { slong j = i, l = 0; while (!s[j]) s[j] = 1, j = v[j], l++; p ^= (l - 1) & 1; } return p; }
int _perm_randtest(slong * v, slong n, flint_rand_t st) { _perm_one(v, n); for (slong i = n - 1; i > 0; i--) std::swap(v[i], v[n_randint(st, i + 1)]); return _perm_parity(v, n); }
int _perm_equal(const slong * a, const slong * b, slong n) { return std::equal(a, a + n, b); }
int _perm_print(const slong * v, slong n) { printf("%ld", (long) n); for (slong i = 0; i < n; i++) printf(" %ld", (long) v[i]); return 1; }
// ---- fmpz
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const fmpz_t f) { mpz_init(z); fmpz_get_mpz(z, f); } ~Z() { mpz_clear(z); } Z(const Z &) = delete; operator mpz_ptr() { return z; } };
void fmpz_clear(fmpz_t f) { if (COEFF_IS_MPZ(*f)) { mpz_ptr p = COEFF_TO_PTR(*f); mpz_clear(p); free(p); } *f = 0; }
void fmpz_get_mpz(mpz_t x, const fmpz_t f) { if (COEFF_IS_MPZ(*f)) mpz_set(x, COEFF_TO_PTR(*f)); else mpz_set_si(x, *f); }
void fmpz_set_mpz(fmpz_t f, const mpz_t x) { Z t; mpz_set(t, x); fmpz_clear(f); if (mpz_fits_slong_p(t) && mpz_get_si(t) <= COEFF_MAX && mpz_get_si(t) >= COEFF_MIN) { *f = mpz_get_si(t); return; } mpz_ptr p = (mpz_ptr) malloc(sizeof(__mpz_struct)); mpz_init_set(p, t); *f = PTR_TO_COEFF(p); }
void fmpz_init2(fmpz_t f, ulong) { *f = 0; }
void fmpz_set(fmpz_t f, const fmpz_t g) { if (f == g) return; Z a(g); fmpz_set_mpz(f, a); }
void fmpz_init_set(fmpz_t f, const fmpz_t g) { fmpz_init(f); fmpz_set(f, g); }
void fmpz_set_ui(fmpz_t f, ulong x) { Z a; mpz_set_ui(a, x); fmpz_set_mpz(f, a); }
void fmpz_set_si(fmpz_t f, slong x) { Z a; mpz_set_si(a, x); fmpz_set_mpz(f, a); }
void fmpz_init_set_ui(fmpz_t f, ulong x) { fmpz_init(f); fmpz_set_ui(f, x); }
void fmpz_init_set_si(fmpz_t f, slong x) { fmpz_init(f); fmpz_set_si(f, x); }
ulong fmpz_get_ui(const fmpz_t f) { Z a(f); return mpz_get_ui(a); }
slong fmpz_get_si(const fmpz_t f) { Z a(f); return mpz_get_si(a); }
int fmpz_sgn(const fmpz_t f) { Z a(f); return mpz_sgn(a.z); }
int fmpz_cmp(const fmpz_t f, const fmpz_t g) { Z a(f), b(g); return mpz_cmp(a, b); }
int fmpz_cmpabs(const fmpz_t f, const fmpz_t g) { Z a(f), b(g); return mpz_cmpabs(a, b); }
int fmpz_cmp_ui(const fmpz_t f, ulong g) { Z a(f); return mpz_cmp_ui(a.z, g); }
int fmpz_cmp_si(const fmpz_t f, slong g) { Z a(f); return mpz_cmp_si(a.z, g); }
int fmpz_equal(const fmpz_t f, const fmpz_t g) { return fmpz_cmp(f, g) == 0; }
int fmpz_equal_si(const fmpz_t f, slong g) { return fmpz_cmp_si(f, g) == 0; }
#define OP3(name, fn) void name(fmpz_t f, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), c; fn(c, a, b); fmpz_set_mpz(f, c); }
OP3(fmpz_add, mpz_add) OP3(fmpz_sub, mpz_sub) OP3(fmpz_mul, mpz_mul) OP3(fmpz_fdiv_q, mpz_fdiv_q) OP3(fmpz_fdiv_r, mpz_fdiv_r) OP3(fmpz_mod, mpz_mod) OP3(fmpz_divexact, mpz_divexact) OP3(fmpz_gcd, mpz_gcd)
#define OP2U(name, fn, T) void name(fmpz_t f, const fmpz_t g, T x) { Z a(g), c; fn(c, a, x); fmpz_set_mpz(f, c); }
OP2U(fmpz_add_ui, mpz_add_ui, ulong) OP2U(fmpz_sub_ui, mpz_sub_ui, ulong) OP2U(fmpz_mul_ui, mpz_mul_ui, ulong) OP2U(fmpz_mul_si, mpz_mul_si, slong) OP2U(fmpz_mul_2exp, mpz_mul_2exp, ulong) OP2U(fmpz_fdiv_q_2exp, mpz_fdiv_q_2exp, ulong) OP2U(fmpz_tdiv_q_2exp, mpz_tdiv_q_2exp, ulong) OP2U(fmpz_divexact_ui, mpz_divexact_ui, ulong) OP2U(fmpz_pow_ui, mpz_pow_ui, ulong)
void fmpz_add_si(fmpz_t f, const fmpz_t g, slong x) { fmpz_t t; fmpz_init_set_si(t, x); fmpz_add(f, g, t); fmpz_clear(t); }
void fmpz_addmul(fmpz_t f, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), c(f); mpz_addmul(c, a, b); fmpz_set_mpz(f, c); }
void fmpz_submul(fmpz_t f, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), c(f); mpz_submul(c, a, b); fmpz_set_mpz(f, c); }
void fmpz_addmul_ui(fmpz_t f, const fmpz_t g, ulong x) { Z a(g), c(f); mpz_addmul_ui(c, a, x); fmpz_set_mpz(f, c); }
void fmpz_neg(fmpz_t f, const fmpz_t g) { Z a(g); mpz_neg(a, a); fmpz_set_mpz(f, a); }
void fmpz_abs(fmpz_t f, const fmpz_t g) { Z a(g); mpz_abs(a, a); fmpz_set_mpz(f, a); }
void fmpz_fdiv_qr(fmpz_t f, fmpz_t s, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), q, r; mpz_fdiv_qr(q, r, a, b); fmpz_set_mpz(f, q); fmpz_set_mpz(s, r); }
void fmpz_tdiv_qr(fmpz_t f, fmpz_t s, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), q, r; mpz_tdiv_qr(q, r, a, b); fmpz_set_mpz(f, q); fmpz_set_mpz(s, r); }
ulong fmpz_fdiv_ui(const fmpz_t g, ulong h) { Z a(g); return mpz_fdiv_ui(a, h); }
ulong fmpz_mod_ui(fmpz_t f, const fmpz_t g, ulong h) { ulong r = fmpz_fdiv_ui(g, h); fmpz_set_ui(f, r); return r; }
int fmpz_invmod(fmpz_t f, const fmpz_t g, const fmpz_t h) { Z a(g), b(h), c; int r = mpz_invert(c, a, b); if (mpz_cmpabs_ui(b.z, 1) == 0) { fmpz_zero(f); return 1; } if (r) fmpz_set_mpz(f, c); return r != 0; }
flint_bitcnt_t fmpz_bits(const fmpz_t f) { Z a(f); return mpz_sgn(a.z) ? mpz_sizeinbase(a, 2) : 0; }
slong fmpz_size(const fmpz_t f) { Z a(f); return mpz_size(a); }
char * fmpz_get_str(char * s, int b, const fmpz_t f) { Z a(f); if (!s) s = (char *) flint_malloc(mpz_sizeinbase(a, b) + 2); return mpz_get_str(s, b, a); }
int fmpz_print(const fmpz_t f) { char * s = fmpz_get_str(nullptr, 10, f); fputs(s, stdout); free(s); return 1; }
static void zrand(mpz_ptr z, flint_rand_t st, flint_bitcnt_t bits) { mpz_set_ui(z, 0); for (flint_bitcnt_t b = 0; b < bits; b += 64) { mpz_mul_2exp(z, z, 64); mpz_add_ui(z, z, n_randlimb(st)); } mpz_fdiv_r_2exp(z, z, bits); }
void fmpz_randbits(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits) { Z a; zrand(a, st, bits); if (bits) mpz_setbit(a, bits - 1); if (n_randlimb(st) & 1) mpz_neg(a, a); fmpz_set_mpz(f, a); }
void fmpz_randtest_unsigned(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits) { Z a; zrand(a, st, n_randint(st, bits + 1)); fmpz_set_mpz(f, a); }
void fmpz_randtest(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits) { fmpz_randtest_unsigned(f, st, bits); if (n_randlimb(st) & 1) fmpz_neg(f, f); }
void fmpz_randm(fmpz_t f, flint_rand_t st, const fmpz_t m) { Z a, b(m); zrand(a, st, fmpz_bits(m) + 64); mpz_mod(a, a, b); fmpz_set_mpz(f, a); }
ulong fmpz_get_nmod(const fmpz_t f, nmod_t m) { return fmpz_fdiv_ui(f, m.n); }
// the value congruent to a modulo m: in [0,m) when sign == 0, in (-m/2, m/2] otherwise (a is already reduced up to one multiple)
void _fmpz_smod(fmpz_t r, const fmpz_t a, const fmpz_t m, int sign, fmpz_t) { Z x(a), n(m); mpz_mod(x, x, n); if (sign) { Z t; mpz_mul_2exp(t, x, 1); if (mpz_cmp(t, n) > 0) mpz_sub(x, x, n); } fmpz_set_mpz(r, x); }
fmpz * _fmpz_vec_init(slong n) { return (fmpz *) flint_calloc(n, sizeof(fmpz)); }
void _fmpz_vec_clear(fmpz * v, slong n) { for (slong i = 0; i < n; i++) fmpz_clear(v + i); free(v); }
void fmpz_multi_mod_init(fmpz_multi_mod_t P) { P->moduli = nullptr; P->moduli_count = 0; P->localsize = 1; }
int fmpz_multi_mod_precompute(fmpz_multi_mod_t P, const fmpz * m, slong n) { fmpz_multi_mod_clear(P); P->moduli = _fmpz_vec_init(n); P->moduli_count = n; int good = n >= 1; for (slong i = 0; i < n; i++) { fmpz_abs(P->moduli + i, m + i); if (fmpz_is_zero(m + i)) good = 0; } return good; }
void fmpz_multi_mod_precomp(fmpz * out, const fmpz_multi_mod_t P, const fmpz_t in, int sign) { fmpz_t t; fmpz_init(t); for (slong i = 0; i < P->moduli_count; i++) _fmpz_smod(out + i, in, P->moduli + i, sign, t); fmpz_clear(t); }
void fmpz_multi_mod_clear(fmpz_multi_mod_t P) { if (P->moduli) _fmpz_vec_clear(P->moduli, P->moduli_count); fmpz_multi_mod_init(P); }
// CRT program: A = B * c_modulus + C * b_modulus on a binary tree; negative indices denote inputs (FLINT's convention for the combine step)
void fmpz_multi_CRT_init(fmpz_multi_CRT_t P) { memset(P, 0, sizeof *P); P->localsize = 1; fmpz_init(P->final_modulus); }
static slong crt_push(fmpz_multi_CRT_t P, slong lo, slong hi, slong depth, fmpz_t mod) {
    if (hi - lo == 1) { fmpz_set(mod, P->moduli + lo); return -lo - 1; }
    slong mid = (lo + hi) / 2; fmpz_t b, c; fmpz_init(b); fmpz_init(c);
    slong bi = crt_push(P, lo, mid, depth, b), ci = crt_push(P, mid, hi, depth + 1, c);
    _fmpz_multi_CRT_instr * q = P->prog + P->length++; q->a_idx = depth; q->b_idx = bi; q->c_idx = ci; fmpz_init_set(q->b_modulus, b); fmpz_init_set(q->c_modulus, c);
    if (depth + 1 > P->localsize) P->localsize = depth + 1; fmpz_mul(mod, b, c); fmpz_clear(b); fmpz_clear(c); return depth; }
int fmpz_multi_CRT_precompute(fmpz_multi_CRT_t P, const fmpz * m, slong n) {
    fmpz_multi_CRT_clear(P); P->moduli = _fmpz_vec_init(n); P->fracmoduli = _fmpz_vec_init(n); P->moduli_count = n; P->good = n >= 1;
    fmpz_one(P->final_modulus); P->min_modulus_bits = ~0UL;
    for (slong i = 0; i < n; i++) { fmpz_abs(P->moduli + i, m + i); if (fmpz_is_zero(m + i)) P->good = 0; fmpz_mul(P->final_modulus, P->final_modulus, P->moduli + i); P->min_modulus_bits = FLINT_MIN(P->min_modulus_bits, fmpz_bits(P->moduli + i)); }
    if (!P->good) return 0;
    fmpz_t t; fmpz_init(t);
    for (slong i = 0; i < n; i++) { fmpz_divexact(t, P->final_modulus, P->moduli + i); if (!fmpz_invmod(P->fracmoduli + i, t, P->moduli + i)) { P->good = 0; break; } }
    P->prog = (_fmpz_multi_CRT_instr *) flint_malloc(FLINT_MAX(n, 1) * sizeof(_fmpz_multi_CRT_instr)); P->length = 0; P->localsize = 1;
    if (P->good) { if (n == 1) { _fmpz_multi_CRT_instr * q = P->prog + P->length++; q->a_idx = 0; q->b_idx = -1; q->c_idx = -1; fmpz_init_set_ui(q->b_modulus, 0); fmpz_init_set_ui(q->c_modulus, 1); } else crt_push(P, 0, n, 0, t); }
    fmpz_clear(t); P->temp1loc = P->localsize++; P->temp2loc = P->localsize++; P->temp3loc = P->localsize++; P->temp4loc = P->localsize++; return P->good; }
void fmpz_multi_CRT_clear(fmpz_multi_CRT_t P) { for (slong i = 0; i < P->length; i++) { fmpz_clear(P->prog[i].b_modulus); fmpz_clear(P->prog[i].c_modulus); } free(P->prog); if (P->moduli) _fmpz_vec_clear(P->moduli, P->moduli_count); if (P->fracmoduli) _fmpz_vec_clear(P->fracmoduli, P->moduli_count); fmpz_clear(P->final_modulus); fmpz_multi_CRT_init(P); }
void fmpz_multi_CRT_precomp(fmpz_t out, const fmpz_multi_CRT_t P, const fmpz * in, int sign) { fmpz_t s, t; fmpz_init(s); fmpz_init(t); for (slong i = 0; i < P->moduli_count; i++) { fmpz_mul(t, in + i, P->fracmoduli + i); fmpz_mod(t, t, P->moduli + i); fmpz_t u; fmpz_init(u); fmpz_divexact(u, P->final_modulus, P->moduli + i); fmpz_addmul(s, t, u); fmpz_clear(u); } _fmpz_smod(out, s, P->final_modulus, sign, t); fmpz_clear(s); fmpz_clear(t); }
void fmpz_mat_init(fmpz_mat_t m, slong r, slong c) { m->r = r; m->c = c; m->stride = c; m->entries = (r && c) ? _fmpz_vec_init(r * c) : nullptr; }
void fmpz_mat_clear(fmpz_mat_t m) { if (m->entries) _fmpz_vec_clear(m->entries, m->r * m->c); }
#define FORALL(m) for (slong i = 0; i < (m)->r; i++) for (slong j = 0; j < (m)->c; j++)
void fmpz_mat_zero(fmpz_mat_t m) { FORALL(m) fmpz_zero(fmpz_mat_entry(m, i, j)); }
void fmpz_mat_set(fmpz_mat_t a, const fmpz_mat_t b) { FORALL(a) fmpz_set(fmpz_mat_entry(a, i, j), fmpz_mat_entry(b, i, j)); }
int fmpz_mat_equal(const fmpz_mat_t a, const fmpz_mat_t b) { if (a->r != b->r || a->c != b->c) return 0; FORALL(a) if (!fmpz_equal(fmpz_mat_entry(a, i, j), fmpz_mat_entry(b, i, j))) return 0; return 1; }
slong fmpz_mat_max_bits(const fmpz_mat_t m) { slong b = 0; int neg = 0; FORALL(m) { b = FLINT_MAX(b, (slong) fmpz_bits(fmpz_mat_entry(m, i, j))); if (fmpz_sgn(fmpz_mat_entry(m, i, j)) < 0) neg = 1; } return neg ? -b : b; }
int fmpz_mat_print_pretty(const fmpz_mat_t m) { for (slong i = 0; i < m->r; i++) { printf("["); for (slong j = 0; j < m->c; j++) { fmpz_print(fmpz_mat_entry(m, i, j)); printf(" "); } printf("]\n"); } return 1; }
void fmpz_mat_mul(fmpz_mat_t c, const fmpz_mat_t a, const fmpz_mat_t b) { fmpz_mat_t t; fmpz_mat_init(t, a->r, b->c); FORALL(t) for (slong k = 0; k < a->c; k++) fmpz_addmul(fmpz_mat_entry(t, i, j), fmpz_mat_entry(a, i, k), fmpz_mat_entry(b, k, j)); fmpz_mat_swap_entrywise(c, t); fmpz_mat_clear(t); }
void fmpz_mat_randtest(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits) { FORALL(m) fmpz_randtest(fmpz_mat_entry(m, i, j), st, bits); }
void fmpz_mat_randtest_unsigned(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits) { FORALL(m) fmpz_randtest_unsigned(fmpz_mat_entry(m, i, j), st, bits); }
void fmpz_mat_swap_entrywise(fmpz_mat_t a, fmpz_mat_t b) { FORALL(a) fmpz_swap(fmpz_mat_entry(a, i, j), fmpz_mat_entry(b, i, j)); }
// ---- nmod_vec
void _nmod_vec_neg(nn_ptr r, nn_srcptr v, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_neg(v[i], m); }
void _nmod_vec_add(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_add(a[i], b[i], m); }
void _nmod_vec_sub(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_sub(a[i], b[i], m); }
void _nmod_vec_reduce(nn_ptr r, nn_srcptr v, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = v[i] % m.n; }
void _nmod_vec_scalar_mul_nmod(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_mul(v[i], c, m); }
void _nmod_vec_scalar_mul_nmod_shoup(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m) { _nmod_vec_scalar_mul_nmod(r, v, n, c, m); }
void _nmod_vec_scalar_addmul_nmod(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_addmul(r[i], v[i], c, m); }
flint_bitcnt_t _nmod_vec_max_bits(nn_srcptr v, slong n) { ulong x = 0; for (slong i = 0; i < n; i++) x |= v[i]; return FLINT_BIT_COUNT(x); }
void _nmod_vec_randtest(nn_ptr v, flint_rand_t st, slong n, nmod_t m) { slong sp = 1; if (n_randint(st, 2)) sp = 1 + n_randint(st, FLINT_MAX(2, n)); for (slong i = 0; i < n; i++) v[i] = (sp > 1 && n_randint(st, sp)) ? 0 : (n_randint(st, 4) ? n_randlimb(st) % m.n : (n_randint(st, 2) ? m.n - 1 : 1 % m.n)); }
int _nmod_vec_dot_bound_limbs(slong n, nmod_t m) { mpz_t t; mpz_init_set_ui(t, m.n - 1); mpz_mul(t, t, t); mpz_mul_ui(t, t, n); int r = (mpz_sizeinbase(t, 2) + 63) / 64; if (mpz_sgn(t) == 0) r = 0; mpz_clear(t); return r; }
dot_params_t _nmod_vec_dot_params(ulong n, nmod_t m) { dot_params_t p; p.pow2_precomp = 0; int l = _nmod_vec_dot_bound_limbs(n, m); // same classification as FLINT's, by number of limbs of the sum
    if (l == 0) p.method = _DOT0; else if ((m.n & (m.n - 1)) == 0) p.method = _DOT_POW2; else if (l == 1) p.method = _DOT1;
    else if (l == 2) { if (m.n <= (1UL << 32)) { if (n <= 380368439 && m.n <= 1515531528UL) { p.method = _DOT2_SPLIT; p.pow2_precomp = (1UL << DOT_SPLIT_BITS) % m.n; } else p.method = _DOT2_HALF; } else p.method = _DOT2; }
    else p.method = (m.n <= 6521908912666391107UL) ? _DOT3_ACC : _DOT3; return p; }
static ulong dotg(nn_srcptr a, slong da, nn_srcptr b, slong db, slong n, nmod_t m) { u128 acc = 0; int big = m.n >> 62 != 0; for (slong i = 0; i < n; i++) { u128 x = (u128) a[i * da] * b[i * db]; if (big) { acc = (acc + x % m.n) % m.n; } else { acc += x; if (acc >> 127) acc %= m.n; } } return (ulong) (acc % m.n); }
ulong _nmod_vec_dot(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t) { return dotg(a, 1, b, 1, n, m); }
ulong _nmod_vec_dot_rev(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t) { return n ? dotg(a, 1, b + n - 1, -1, n, m) : 0; }
ulong _nmod_vec_dot_ptr(nn_srcptr a, const nn_ptr * b, slong off, slong n, nmod_t m, dot_params_t) { ulong s = 0; for (slong i = 0; i < n; i++) s = nmod_addmul(s, a[i], b[i][off], m); return s; }
ulong _nmod_vec_dot2_split(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, ulong) { return dotg(a, 1, b, 1, n, m); }
// ---- nmod_mat
void nmod_mat_init(nmod_mat_t m, slong r, slong c, ulong n) { m->r = r; m->c = c; m->stride = c; nmod_init(&m->mod, n); m->entries = (r && c) ? (ulong *) flint_calloc(r * c, sizeof(ulong)) : nullptr; }
void nmod_mat_init_set(nmod_mat_t a, const nmod_mat_t b) { nmod_mat_init(a, b->r, b->c, b->mod.n); nmod_mat_set(a, b); }
void nmod_mat_clear(nmod_mat_t m) { free(m->entries); }
void nmod_mat_set(nmod_mat_t a, const nmod_mat_t b) { if (a == b) return; FORALL(b) nmod_mat_entry(a, i, j) = nmod_mat_entry(b, i, j); }
void nmod_mat_swap(nmod_mat_t a, nmod_mat_t b) { nmod_mat_struct t = *a; *a = *b; *b = t; }
void nmod_mat_swap_entrywise(nmod_mat_t a, nmod_mat_t b) { FORALL(a) std::swap(nmod_mat_entry(a, i, j), nmod_mat_entry(b, i, j)); }
void nmod_mat_zero(nmod_mat_t m) { FORALL(m) nmod_mat_entry(m, i, j) = 0; }
void nmod_mat_one(nmod_mat_t m) { FORALL(m) nmod_mat_entry(m, i, j) = i == j ? 1 % m->mod.n : 0; }
int nmod_mat_is_zero(const nmod_mat_t m) { FORALL(m) if (nmod_mat_entry(m, i, j)) return 0; return 1; }
int nmod_mat_is_one(const nmod_mat_t m) { FORALL(m) if (nmod_mat_entry(m, i, j) != (i == j ? 1 % m->mod.n : 0)) return 0; return 1; }
int nmod_mat_equal(const nmod_mat_t a, const nmod_mat_t b) { if (a->r != b->r || a->c != b->c) return 0; FORALL(a) if (nmod_mat_entry(a, i, j) != nmod_mat_entry(b, i, j)) return 0; return 1; }
int nmod_mat_is_zero_row(const nmod_mat_t m, slong i) { for (slong j = 0; j < m->c; j++) if (nmod_mat_entry(m, i, j)) return 0; return 1; }
void nmod_mat_window_init(nmod_mat_t w, const nmod_mat_t m, slong r1, slong c1, slong r2, slong c2) { w->r = r2 - r1; w->c = c2 - c1; w->stride = m->stride; w->mod = m->mod; w->entries = (m->entries && w->r > 0 && w->c > 0) ? m->entries + r1 * m->stride + c1 : nullptr; }
void nmod_mat_window_clear(nmod_mat_t) {}
struct NM { nmod_mat_t m; NM(slong r, slong c, ulong n) { nmod_mat_init(m, r, c, n); } NM(const nmod_mat_t a) { nmod_mat_init_set(m, a); } NM(const NM &) = delete; ~NM() { nmod_mat_clear(m); } operator nmod_mat_struct *() { return m; } };
void nmod_mat_transpose(nmod_mat_t a, const nmod_mat_t b) { NM t(b); FORALL(t.m) nmod_mat_entry(a, j, i) = nmod_mat_entry(t.m, i, j); }
void nmod_mat_add(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { FORALL(c) nmod_mat_entry(c, i, j) = nmod_add(nmod_mat_entry(a, i, j), nmod_mat_entry(b, i, j), c->mod); }
void nmod_mat_sub(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { FORALL(c) nmod_mat_entry(c, i, j) = nmod_sub(nmod_mat_entry(a, i, j), nmod_mat_entry(b, i, j), c->mod); }
void nmod_mat_neg(nmod_mat_t c, const nmod_mat_t a) { FORALL(c) nmod_mat_entry(c, i, j) = nmod_neg(nmod_mat_entry(a, i, j), c->mod); }
void nmod_mat_mul(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { NM t(a->r, b->c, c->mod.n); FORALL(t.m) nmod_mat_entry(t.m, i, j) = a->c ? dotg(&nmod_mat_entry(a, i, 0), 1, &nmod_mat_entry(b, 0, j), b->stride, a->c, c->mod) : 0; nmod_mat_set(c, t); }
void nmod_mat_mul_classical(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { nmod_mat_mul(c, a, b); }
void nmod_mat_mul_strassen(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { nmod_mat_mul(c, a, b); }
void nmod_mat_scalar_mul(nmod_mat_t c, const nmod_mat_t a, ulong s) { FORALL(c) nmod_mat_entry(c, i, j) = nmod_mul(nmod_mat_entry(a, i, j), s, c->mod); }
void nmod_mat_scalar_addmul_ui(nmod_mat_t d, const nmod_mat_t x, const nmod_mat_t b, ulong c) { FORALL(d) nmod_mat_entry(d, i, j) = nmod_addmul(nmod_mat_entry(x, i, j), nmod_mat_entry(b, i, j), c % d->mod.n, d->mod); }
void nmod_mat_mul_nmod_vec(nn_ptr c, const nmod_mat_t a, nn_srcptr b, slong n) { slong l = FLINT_MIN(a->c, n); for (slong i = a->r - 1; i >= 0; i--) c[i] = l ? dotg(&nmod_mat_entry(a, i, 0), 1, b, 1, l, a->mod) : 0; }
void nmod_mat_nmod_vec_mul(nn_ptr c, nn_srcptr a, slong n, const nmod_mat_t b) { slong l = FLINT_MIN(b->r, n); for (slong j = b->c - 1; j >= 0; j--) c[j] = l ? dotg(a, 1, &nmod_mat_entry(b, 0, j), b->stride, l, b->mod) : 0; }
void nmod_mat_swap_rows(nmod_mat_t m, slong * perm, slong r, slong s) { if (r == s || nmod_mat_is_empty(m)) return; if (perm) std::swap(perm[r], perm[s]); for (slong j = 0; j < m->c; j++) std::swap(nmod_mat_entry(m, r, j), nmod_mat_entry(m, s, j)); }
void nmod_mat_swap_cols(nmod_mat_t m, slong * perm, slong r, slong s) { if (r == s || nmod_mat_is_empty(m)) return; if (perm) std::swap(perm[r], perm[s]); for (slong i = 0; i < m->r; i++) std::swap(nmod_mat_entry(m, i, r), nmod_mat_entry(m, i, s)); }
void nmod_mat_permute_rows(nmod_mat_t m, const slong * act, slong * store) { if (store) _perm_compose(store, store, act, m->r); NM t(m); FORALL(m) nmod_mat_entry(m, i, j) = nmod_mat_entry(t.m, act[i], j); }
void nmod_mat_randtest(nmod_mat_t m, flint_rand_t st) { for (slong i = 0; i < m->r; i++) if (m->c) _nmod_vec_randtest(&nmod_mat_entry(m, i, 0), st, m->c, m->mod); }
void nmod_mat_randfull(nmod_mat_t m, flint_rand_t st) { FORALL(m) nmod_mat_entry(m, i, j) = m->mod.n == 1 ? 0 : 1 + n_randint(st, m->mod.n - 1); }
void nmod_mat_randrank(nmod_mat_t m, flint_rand_t st, slong rank) { nmod_mat_zero(m); for (slong i = 0; i < rank; i++) nmod_mat_entry(m, i, i) = 1 + n_randint(st, m->mod.n - 1); }
void nmod_mat_randops(nmod_mat_t m, flint_rand_t st, slong count) { if (nmod_mat_is_empty(m)) return; for (slong c = 0; c < count; c++) { if (n_randint(st, 2)) { slong i = n_randint(st, m->r), k = n_randint(st, m->r); if (i == k) continue; int s = n_randint(st, 2); for (slong j = 0; j < m->c; j++) nmod_mat_entry(m, k, j) = s ? nmod_add(nmod_mat_entry(m, k, j), nmod_mat_entry(m, i, j), m->mod) : nmod_sub(nmod_mat_entry(m, k, j), nmod_mat_entry(m, i, j), m->mod); } else { slong i = n_randint(st, m->c), k = n_randint(st, m->c); if (i == k) continue; int s = n_randint(st, 2); for (slong j = 0; j < m->r; j++) nmod_mat_entry(m, j, k) = s ? nmod_add(nmod_mat_entry(m, j, k), nmod_mat_entry(m, j, i), m->mod) : nmod_sub(nmod_mat_entry(m, j, k), nmod_mat_entry(m, j, i), m->mod); } } }
void nmod_mat_print_pretty(const nmod_mat_t m) { printf("<%ld x %ld integer matrix mod %lu>\n", (long) m->r, (long) m->c, (unsigned long) m->mod.n); for (slong i = 0; i < m->r; i++) { printf("["); for (slong j = 0; j < m->c; j++) printf("%lu%s", (unsigned long) nmod_mat_entry(m, i, j), j + 1 < m->c ? " " : ""); printf("]\n"); } }
void nmod_mat_print(const nmod_mat_t m) { nmod_mat_print_pretty(m); }
void nmod_mat_concat_horizontal(nmod_mat_t r, const nmod_mat_t a, const nmod_mat_t b) { FORALL(r) nmod_mat_entry(r, i, j) = j < a->c ? nmod_mat_entry(a, i, j) : nmod_mat_entry(b, i, j - a->c); }
void nmod_mat_concat_vertical(nmod_mat_t r, const nmod_mat_t a, const nmod_mat_t b) { FORALL(r) nmod_mat_entry(r, i, j) = i < a->r ? nmod_mat_entry(a, i, j) : nmod_mat_entry(b, i - a->r, j); }
static slong rref(nmod_mat_t m, std::vector<slong> & piv) { slong rk = 0; piv.clear(); for (slong j = 0; j < m->c && rk < m->r; j++) { slong p = rk; while (p < m->r && !nmod_mat_entry(m, p, j)) p++; if (p == m->r) continue; nmod_mat_swap_rows(m, nullptr, rk, p); ulong iv = nmod_inv(nmod_mat_entry(m, rk, j), m->mod); for (slong k = 0; k < m->c; k++) nmod_mat_entry(m, rk, k) = nmod_mul(nmod_mat_entry(m, rk, k), iv, m->mod); for (slong i = 0; i < m->r; i++) if (i != rk && nmod_mat_entry(m, i, j)) { ulong f = nmod_neg(nmod_mat_entry(m, i, j), m->mod); for (slong k = 0; k < m->c; k++) nmod_mat_entry(m, i, k) = nmod_addmul(nmod_mat_entry(m, i, k), f, nmod_mat_entry(m, rk, k), m->mod); } piv.push_back(j); rk++; } return rk; }
slong nmod_mat_rref(nmod_mat_t m) { std::vector<slong> p; return rref(m, p); }
slong nmod_mat_rank(const nmod_mat_t m) { NM t(m); return nmod_mat_rref(t); }
ulong nmod_mat_det(const nmod_mat_t a) { if (a->r != a->c) flint_throw(FLINT_ERROR, "Exception (nmod_mat_det). Non-square matrix.\n"); NM t(a); nmod_mat_struct * m = t; ulong d = 1 % a->mod.n; for (slong j = 0; j < m->c; j++) { slong p = j; while (p < m->r && !nmod_mat_entry(m, p, j)) p++; if (p == m->r) return 0; if (p != j) { nmod_mat_swap_rows(m, nullptr, p, j); d = nmod_neg(d, a->mod); } ulong pv = nmod_mat_entry(m, j, j), iv = nmod_inv(pv, a->mod); d = nmod_mul(d, pv, a->mod); for (slong i = j + 1; i < m->r; i++) { ulong f = nmod_neg(nmod_mul(nmod_mat_entry(m, i, j), iv, a->mod), a->mod); for (slong k = j; k < m->c; k++) nmod_mat_entry(m, i, k) = nmod_addmul(nmod_mat_entry(m, i, k), f, nmod_mat_entry(m, j, k), a->mod); } } return d; }
int nmod_mat_inv(nmod_mat_t b, const nmod_mat_t a) { if (a->r != a->c) flint_throw(FLINT_ERROR, "Exception (nmod_mat_inv). Non-square matrix.\n"); slong n = a->r; NM t(n, 2 * n, a->mod.n); for (slong i = 0; i < n; i++) { for (slong j = 0; j < n; j++) nmod_mat_entry(t.m, i, j) = nmod_mat_entry(a, i, j); nmod_mat_entry(t.m, i, n + i) = 1; } std::vector<slong> p; rref(t, p); for (slong i = 0; i < n; i++) if (i >= (slong) p.size() || p[i] != i) return 0; for (slong i = 0; i < n; i++) for (slong j = 0; j < n; j++) nmod_mat_entry(b, i, j) = nmod_mat_entry(t.m, i, n + j); return 1; }
slong nmod_mat_nullspace(nmod_mat_t x, const nmod_mat_t a) { NM t(a); std::vector<slong> p; slong rk = rref(t, p), k = 0; nmod_mat_zero(x); for (slong j = 0, q = 0; j < a->c; j++) { if (q < rk && p[q] == j) { q++; continue; } nmod_mat_entry(x, j, k) = 1; for (slong i = 0; i < rk; i++) nmod_mat_entry(x, p[i], k) = nmod_neg(nmod_mat_entry(t.m, i, j), a->mod); k++; } return k; }
slong nmod_mat_lu(slong * P, nmod_mat_t m, int rank_check) { slong rk = 0; for (slong i = 0; i < m->r; i++) P[i] = i; for (slong j = 0; j < m->c && rk < m->r; j++) { slong p = rk; while (p < m->r && !nmod_mat_entry(m, p, j)) p++; if (p == m->r) { if (rank_check) return 0; continue; } nmod_mat_swap_rows(m, P, rk, p); ulong iv = nmod_inv(nmod_mat_entry(m, rk, j), m->mod); for (slong i = rk + 1; i < m->r; i++) { ulong f = nmod_mul(nmod_mat_entry(m, i, j), iv, m->mod), nf = nmod_neg(f, m->mod); for (slong k = j + 1; k < m->c; k++) nmod_mat_entry(m, i, k) = nmod_addmul(nmod_mat_entry(m, i, k), nf, nmod_mat_entry(m, rk, k), m->mod); nmod_mat_entry(m, i, j) = 0; nmod_mat_entry(m, i, rk) = f; } rk++; } return rk; }
slong nmod_mat_lu_classical(slong * p, nmod_mat_t a, int rc) { return nmod_mat_lu(p, a, rc); }
slong nmod_mat_lu_recursive(slong * p, nmod_mat_t a, int rc) { return nmod_mat_lu(p, a, rc); }
void nmod_mat_solve_tril(nmod_mat_t x, const nmod_mat_t l, const nmod_mat_t b, int unit) { NM t(b); for (slong j = 0; j < b->c; j++) for (slong i = 0; i < l->r; i++) { ulong s = nmod_mat_entry(t.m, i, j); for (slong k = 0; k < i; k++) s = nmod_sub(s, nmod_mul(nmod_mat_entry(l, i, k), nmod_mat_entry(t.m, k, j), l->mod), l->mod); if (!unit) s = nmod_div(s, nmod_mat_entry(l, i, i), l->mod); nmod_mat_entry(t.m, i, j) = s; } nmod_mat_set(x, t); }
void nmod_mat_solve_triu(nmod_mat_t x, const nmod_mat_t u, const nmod_mat_t b, int unit) { NM t(b); for (slong j = 0; j < b->c; j++) for (slong i = u->r - 1; i >= 0; i--) { ulong s = nmod_mat_entry(t.m, i, j); for (slong k = i + 1; k < u->r; k++) s = nmod_sub(s, nmod_mul(nmod_mat_entry(u, i, k), nmod_mat_entry(t.m, k, j), u->mod), u->mod); if (!unit) s = nmod_div(s, nmod_mat_entry(u, i, i), u->mod); nmod_mat_entry(t.m, i, j) = s; } nmod_mat_set(x, t); }
int nmod_mat_can_solve(nmod_mat_t x, const nmod_mat_t a, const nmod_mat_t b) { NM t(a->r, a->c + b->c, a->mod.n); nmod_mat_concat_horizontal(t, a, b); std::vector<slong> p; slong rk = rref(t, p); for (slong q : p) if (q >= a->c) return 0; nmod_mat_zero(x); for (slong i = 0; i < rk; i++) for (slong j = 0; j < b->c; j++) nmod_mat_entry(x, p[i], j) = nmod_mat_entry(t.m, i, a->c + j); return 1; }
int nmod_mat_solve(nmod_mat_t x, const nmod_mat_t a, const nmod_mat_t b) { if (nmod_mat_rank(a) < a->r) return 0; return nmod_mat_can_solve(x, a, b); }
// ---- nmod_poly
void nmod_poly_init_mod(nmod_poly_t p, nmod_t m) { p->coeffs = nullptr; p->alloc = p->length = 0; p->mod = m; }
void nmod_poly_init(nmod_poly_t p, ulong n) { nmod_t m; nmod_init(&m, n); nmod_poly_init_mod(p, m); }
void nmod_poly_init_preinv(nmod_poly_t p, ulong n, ulong) { nmod_poly_init(p, n); }
void nmod_poly_init2(nmod_poly_t p, ulong n, slong a) { nmod_poly_init(p, n); nmod_poly_fit_length(p, a); }
void nmod_poly_init2_preinv(nmod_poly_t p, ulong n, ulong, slong a) { nmod_poly_init2(p, n, a); }
void nmod_poly_realloc(nmod_poly_t p, slong a) { if (a == 0) { free(p->coeffs); p->coeffs = nullptr; p->alloc = p->length = 0; return; } p->coeffs = (nn_ptr) flint_realloc(p->coeffs, a * sizeof(ulong)); p->alloc = a; if (p->length > a) { p->length = a; _nmod_poly_normalise(p); } }
void nmod_poly_fit_length(nmod_poly_t p, slong a) { if (a > p->alloc) nmod_poly_realloc(p, a); }
void nmod_poly_clear(nmod_poly_t p) { free(p->coeffs); }
static void pset(nmod_poly_t p, const V & v) { nmod_poly_fit_length(p, v.size()); std::copy(v.begin(), v.end(), p->coeffs); p->length = v.size(); _nmod_poly_normalise(p); }
static V pget(const nmod_poly_t p) { return p->length > 0 ? V(p->coeffs, p->coeffs + p->length) : V(); }
static void vnorm(V & v) { while (!v.empty() && !v.back()) v.pop_back(); }
void nmod_poly_set(nmod_poly_t a, const nmod_poly_t b) { if (a != b) pset(a, pget(b)); }
void nmod_poly_set_trunc(nmod_poly_t a, const nmod_poly_t b, slong n) { V v = pget(b); if ((slong) v.size() > n) v.resize(n); pset(a, v); }
void nmod_poly_truncate(nmod_poly_t p, slong n) { if (p->length > n) { p->length = n; _nmod_poly_normalise(p); } }
void nmod_poly_one(nmod_poly_t p) { pset(p, V(1, 1 % p->mod.n)); }
void nmod_poly_set_coeff_ui(nmod_poly_t p, slong j, ulong c) { V v = pget(p); if ((slong) v.size() <= j) v.resize(j + 1); v[j] = c % p->mod.n; pset(p, v); }
int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b) { return a->length == b->length && pget(a) == pget(b); }
static V vmul(const V & a, const V & b, nmod_t m) { if (a.empty() || b.empty()) return V(); V r(a.size() + b.size() - 1); for (slong k = 0; k < (slong) r.size(); k++) { slong lo = FLINT_MAX((slong) 0, k - (slong) b.size() + 1), hi = FLINT_MIN(k, (slong) a.size() - 1); r[k] = dotg(&a[lo], 1, &b[k - lo], -1, hi - lo + 1, m); } vnorm(r); return r; }
static V vadd(const V & a, const V & b, nmod_t m) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = nmod_add(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0, m); vnorm(r); return r; }
static V vsub(const V & a, const V & b, nmod_t m) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = nmod_sub(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0, m); vnorm(r); return r; }
static V vscal(V a, ulong c, nmod_t m) { for (ulong & x : a) x = nmod_mul(x, c, m); vnorm(a); return a; }
static void vdivrem(V & q, V & r, const V & a, const V & b, nmod_t m) { if (b.empty()) flint_throw(FLINT_DIVZERO, "Division by zero in nmod_poly_divrem"); V rr = a; V qq(a.size() >= b.size() ? a.size() - b.size() + 1 : 0); ulong iv = nmod_inv(b.back(), m); for (slong i = (slong) qq.size() - 1; i >= 0; i--) { ulong c = nmod_mul(rr[i + b.size() - 1], iv, m); qq[i] = c; if (c) { ulong nc = nmod_neg(c, m); for (size_t k = 0; k < b.size(); k++) rr[i + k] = nmod_addmul(rr[i + k], nc, b[k], m); } } vnorm(qq); vnorm(rr); q = qq; r = rr; }
void nmod_poly_neg(nmod_poly_t r, const nmod_poly_t a) { pset(r, vsub(V(), pget(a), r->mod)); }
void nmod_poly_add(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { pset(r, vadd(pget(a), pget(b), r->mod)); }
void nmod_poly_sub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { pset(r, vsub(pget(a), pget(b), r->mod)); }
void nmod_poly_mul(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { pset(r, vmul(pget(a), pget(b), r->mod)); }
void nmod_poly_mullow(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { V v = vmul(pget(a), pget(b), r->mod); if ((slong) v.size() > n) v.resize(n < 0 ? 0 : n); pset(r, v); }
void nmod_poly_scalar_mul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { pset(r, vscal(pget(a), c, r->mod)); }
void nmod_poly_scalar_addmul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { pset(r, vadd(pget(r), vscal(pget(a), c, r->mod), r->mod)); }
void nmod_poly_make_monic(nmod_poly_t r, const nmod_poly_t a) { if (!a->length) flint_throw(FLINT_DIVZERO, "nmod_poly_make_monic"); V v = pget(a); pset(r, vscal(v, nmod_inv(v.back(), a->mod), a->mod)); }
void nmod_poly_shift_left(nmod_poly_t r, const nmod_poly_t a, slong k) { V v = pget(a); if (!v.empty()) v.insert(v.begin(), k, 0); pset(r, v); }
void nmod_poly_shift_right(nmod_poly_t r, const nmod_poly_t a, slong k) { V v = pget(a); v.erase(v.begin(), v.begin() + std::min<size_t>(k, v.size())); pset(r, v); }
void nmod_poly_divrem(nmod_poly_t q, nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { V x, y; vdivrem(x, y, pget(a), pget(b), a->mod); pset(q, x); pset(r, y); }
void nmod_poly_div(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b) { V x, y; vdivrem(x, y, pget(a), pget(b), a->mod); pset(q, x); }
void nmod_poly_rem(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { V x, y; vdivrem(x, y, pget(a), pget(b), a->mod); pset(r, y); }
int nmod_poly_divides(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b) { V A = pget(a), B = pget(b), x, y; if (B.empty()) { nmod_poly_zero(q); return A.empty(); } vdivrem(x, y, A, B, a->mod); if (!y.empty()) { nmod_poly_zero(q); return 0; } pset(q, x); return 1; }
void nmod_poly_xgcd(nmod_poly_t g, nmod_poly_t s, nmod_poly_t t, const nmod_poly_t a, const nmod_poly_t b) { nmod_t m = a->mod; V r0 = pget(a), r1 = pget(b), s0(1, 1), s1, t0, t1(1, 1), q, r;
    if (r0.empty()) s0.clear(); // FLINT: a = 0 gives s = 0
    if (pget(a).size() < pget(b).size()) { std::swap(r0, r1); std::swap(s0, s1); std::swap(t0, t1); }
    while (!r1.empty()) { vdivrem(q, r, r0, r1, m); r0 = r1; r1 = r; V u = vsub(s0, vmul(q, s1, m), m); s0 = s1; s1 = u; u = vsub(t0, vmul(q, t1, m), m); t0 = t1; t1 = u; }
    if (r0.empty()) { nmod_poly_zero(g); nmod_poly_zero(s); nmod_poly_zero(t); return; }
    ulong iv = nmod_inv(r0.back(), m); pset(g, vscal(r0, iv, m)); pset(s, vscal(s0, iv, m)); pset(t, vscal(t0, iv, m)); }
void nmod_poly_gcd(nmod_poly_t g, const nmod_poly_t a, const nmod_poly_t b) { V r0 = pget(a), r1 = pget(b), q, r; while (!r1.empty()) { vdivrem(q, r, r0, r1, a->mod); r0 = r1; r1 = r; } if (!r0.empty()) r0 = vscal(r0, nmod_inv(r0.back(), a->mod), a->mod); pset(g, r0); }
ulong nmod_poly_evaluate_nmod(const nmod_poly_t p, ulong x) { ulong s = 0; for (slong i = p->length - 1; i >= 0; i--) s = nmod_addmul(p->coeffs[i], s, x, p->mod); return s; }
void _nmod_poly_reverse(nn_ptr o, nn_srcptr a, slong n, slong m) { V v(m); for (slong i = 0; i < m; i++) v[i] = (m - 1 - i < n) ? a[m - 1 - i] : 0; std::copy(v.begin(), v.end(), o); }
void nmod_poly_reverse(nmod_poly_t r, const nmod_poly_t a, slong n) { V v(n); for (slong i = 0; i < n; i++) v[i] = nmod_poly_get_coeff_ui(a, n - 1 - i); pset(r, v); }
void nmod_poly_randtest(nmod_poly_t p, flint_rand_t st, slong n) { V v(n > 0 ? n : 0); if (n > 0) _nmod_vec_randtest(v.data(), st, n, p->mod); pset(p, v); }
void nmod_poly_randtest_not_zero(nmod_poly_t p, flint_rand_t st, slong n) { if (n <= 0) flint_throw(FLINT_ERROR, "randtest_not_zero"); do nmod_poly_randtest(p, st, n); while (!p->length); }
void nmod_poly_randtest_monic(nmod_poly_t p, flint_rand_t st, slong n) { V v(n); _nmod_vec_randtest(v.data(), st, n - 1, p->mod); v[n - 1] = 1; pset(p, v); }
int nmod_poly_fprint_pretty(FILE * f, const nmod_poly_t p, const char * x) { if (!p->length) fprintf(f, "0"); for (slong i = p->length - 1, c = 0; i >= 0; i--) if (p->coeffs[i]) { if (c++) fprintf(f, "+"); if (i == 0) fprintf(f, "%lu", (unsigned long) p->coeffs[0]); else { if (p->coeffs[i] != 1) fprintf(f, "%lu*", (unsigned long) p->coeffs[i]); fprintf(f, i == 1 ? "%s" : "%s^%ld", x, (long) i); } } return 1; }
int nmod_poly_print_pretty(const nmod_poly_t p, const char * x) { return nmod_poly_fprint_pretty(stdout, p, x); }
int nmod_poly_print(const nmod_poly_t p) { printf("%ld %lu", (long) p->length, (unsigned long) p->mod.n); for (slong i = 0; i < p->length; i++) printf(" %lu", (unsigned long) p->coeffs[i]); return 1; }
// points 1, r^2, r^4, ...; evaluation by Horner, interpolation by Newton's divided differences
void _nmod_geometric_progression_init_function(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod, ulong f) { G->r = r; G->len = len; G->mod = mod; G->function = f; G->pts = _nmod_vec_init(len); ulong q = nmod_mul(r, r, mod), x = 1 % mod.n; for (slong i = 0; i < len; i++) { G->pts[i] = x; x = nmod_mul(x, q, mod); } }
void nmod_geometric_progression_init(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod) { _nmod_geometric_progression_init_function(G, r, len, mod, 3); }
void nmod_geometric_progression_clear(nmod_geometric_progression_t G) { flint_free(G->pts); }
void _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, nn_srcptr poly, slong plen, const nmod_geometric_progression_t G, slong len, nmod_t mod) { if (len > G->len || plen > G->len) flint_throw(FLINT_ERROR, "geometric evaluation: precomputation too short"); for (slong i = 0; i < len; i++) { ulong s = 0; for (slong k = plen - 1; k >= 0; k--) s = nmod_addmul(poly[k], s, G->pts[i], mod); vs[i] = s; } }
void _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nn_ptr poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len, nmod_t mod) { if (len > G->len) flint_throw(FLINT_ERROR, "geometric interpolation: precomputation too short"); V d(v, v + len); for (slong k = 1; k < len; k++) for (slong i = len - 1; i >= k; i--) d[i] = nmod_div(nmod_sub(d[i], d[i - 1], mod), nmod_sub(G->pts[i], G->pts[i - k], mod), mod); V r(len); for (slong i = len - 1; i >= 0; i--) { for (slong k = len - 1; k >= 1; k--) r[k] = nmod_sub(r[k - 1], nmod_mul(r[k], G->pts[i], mod), mod); if (len) r[0] = nmod_neg(nmod_mul(r[0], G->pts[i], mod), mod); r[0] = nmod_add(r[0], d[i], mod); } std::copy(r.begin(), r.end(), poly); }
void nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nmod_poly_t poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len) { V r(len); _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(r.data(), v, G, len, G->mod); pset(poly, r); }
// ---- nmod_poly_mat
#define PM nmod_poly_mat_entry
void nmod_poly_mat_init(nmod_poly_mat_t m, slong r, slong c, ulong n) { m->r = r; m->c = c; m->stride = c; m->modulus = n; m->entries = (r && c) ? (nmod_poly_struct *) flint_malloc(r * c * sizeof(nmod_poly_struct)) : nullptr; for (slong i = 0; i < r * c; i++) nmod_poly_init(m->entries + i, n); }
void nmod_poly_mat_init_set(nmod_poly_mat_t a, const nmod_poly_mat_t b) { nmod_poly_mat_init(a, b->r, b->c, b->modulus); nmod_poly_mat_set(a, b); }
void nmod_poly_mat_clear(nmod_poly_mat_t m) { if (m->entries) { FORALL(m) nmod_poly_clear(PM(m, i, j)); free(m->entries); } }
// loops over the dimensions of the source, as FLINT does (nmod_poly_mat_inv_trunc relies on it)
void nmod_poly_mat_set(nmod_poly_mat_t a, const nmod_poly_mat_t b) { if (a != b) FORALL(b) nmod_poly_set(PM(a, i, j), PM(b, i, j)); }
void nmod_poly_mat_swap(nmod_poly_mat_t a, nmod_poly_mat_t b) { nmod_poly_mat_struct t = *a; *a = *b; *b = t; }
void nmod_poly_mat_swap_entrywise(nmod_poly_mat_t a, nmod_poly_mat_t b) { FORALL(a) nmod_poly_swap(PM(a, i, j), PM(b, i, j)); }
void nmod_poly_mat_zero(nmod_poly_mat_t m) { FORALL(m) nmod_poly_zero(PM(m, i, j)); }
void nmod_poly_mat_one(nmod_poly_mat_t m) { FORALL(m) { nmod_poly_zero(PM(m, i, j)); if (i == j) nmod_poly_one(PM(m, i, j)); } }
int nmod_poly_mat_is_zero(const nmod_poly_mat_t m) { FORALL(m) if (PM(m, i, j)->length) return 0; return 1; }
int nmod_poly_mat_is_one(const nmod_poly_mat_t m) { FORALL(m) if (i == j ? !nmod_poly_is_one(PM(m, i, j)) : PM(m, i, j)->length != 0) return 0; return 1; }
int nmod_poly_mat_equal(const nmod_poly_mat_t a, const nmod_poly_mat_t b) { if (a->r != b->r || a->c != b->c) return 0; FORALL(a) if (!nmod_poly_equal(PM(a, i, j), PM(b, i, j))) return 0; return 1; }
slong nmod_poly_mat_max_length(const nmod_poly_mat_t m) { slong l = 0; FORALL(m) l = FLINT_MAX(l, PM(m, i, j)->length); return l; }
void nmod_poly_mat_window_init(nmod_poly_mat_t w, const nmod_poly_mat_t m, slong r1, slong c1, slong r2, slong c2) { w->r = r2 - r1; w->c = c2 - c1; w->stride = m->stride; w->modulus = m->modulus; w->entries = (m->entries && w->r > 0 && w->c > 0) ? m->entries + r1 * m->stride + c1 : nullptr; }
void nmod_poly_mat_window_clear(nmod_poly_mat_t) {}
struct NPM { nmod_poly_mat_t m; NPM(slong r, slong c, ulong n) { nmod_poly_mat_init(m, r, c, n); } NPM(const nmod_poly_mat_t a) { nmod_poly_mat_init_set(m, a); } NPM(const NPM &) = delete; ~NPM() { nmod_poly_mat_clear(m); } operator nmod_poly_mat_struct *() { return m; } };
void nmod_poly_mat_transpose(nmod_poly_mat_t a, const nmod_poly_mat_t b) { NPM t(b); FORALL(t.m) nmod_poly_set(PM(a, j, i), PM(t.m, i, j)); }
void nmod_poly_mat_add(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { FORALL(c) nmod_poly_add(PM(c, i, j), PM(a, i, j), PM(b, i, j)); }
void nmod_poly_mat_sub(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { FORALL(c) nmod_poly_sub(PM(c, i, j), PM(a, i, j), PM(b, i, j)); }
void nmod_poly_mat_neg(nmod_poly_mat_t c, const nmod_poly_mat_t a) { FORALL(c) nmod_poly_neg(PM(c, i, j), PM(a, i, j)); }
void nmod_poly_mat_mul(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { NPM t(a->r, b->c, c->modulus); nmod_t m; nmod_init(&m, c->modulus); FORALL(t.m) { V s; for (slong k = 0; k < a->c; k++) s = vadd(s, vmul(pget(PM(a, i, k)), pget(PM(b, k, j)), m), m); pset(PM(t.m, i, j), s); } FORALL(t.m) nmod_poly_swap(PM(c, i, j), PM(t.m, i, j)); }
void nmod_poly_mat_mul_classical(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { nmod_poly_mat_mul(c, a, b); }
void nmod_poly_mat_mul_KS(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { nmod_poly_mat_mul(c, a, b); }
void nmod_poly_mat_sqr(nmod_poly_mat_t b, const nmod_poly_mat_t a) { nmod_poly_mat_mul(b, a, a); }
void nmod_poly_mat_pow(nmod_poly_mat_t b, const nmod_poly_mat_t a, ulong e) { NPM t(a->r, a->c, a->modulus), x(a); nmod_poly_mat_one(t); while (e--) nmod_poly_mat_mul(t, t, x); nmod_poly_mat_set(b, t); }
void nmod_poly_mat_scalar_mul_nmod(nmod_poly_mat_t c, const nmod_poly_mat_t a, ulong s) { FORALL(c) nmod_poly_scalar_mul_nmod(PM(c, i, j), PM(a, i, j), s); }
void nmod_poly_mat_scalar_mul_nmod_poly(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_t s) { FORALL(c) nmod_poly_mul(PM(c, i, j), PM(a, i, j), s); }
void nmod_poly_mat_evaluate_nmod(nmod_mat_t b, const nmod_poly_mat_t a, ulong x) { FORALL(a) nmod_mat_entry(b, i, j) = nmod_poly_evaluate_nmod(PM(a, i, j), x); }
void nmod_poly_mat_truncate(nmod_poly_mat_t m, slong n) { FORALL(m) nmod_poly_truncate(PM(m, i, j), n); }
void nmod_poly_mat_set_trunc(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong n) { FORALL(a) nmod_poly_set_trunc(PM(a, i, j), PM(b, i, j), n); }
void nmod_poly_mat_shift_left(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong k) { FORALL(a) nmod_poly_shift_left(PM(a, i, j), PM(b, i, j), k); }
void nmod_poly_mat_shift_right(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong k) { FORALL(a) nmod_poly_shift_right(PM(a, i, j), PM(b, i, j), k); }
void nmod_poly_mat_get_coeff_mat(nmod_mat_t c, const nmod_poly_mat_t a, slong d) { FORALL(a) nmod_mat_entry(c, i, j) = nmod_poly_get_coeff_ui(PM(a, i, j), d); }
void nmod_poly_mat_set_coeff_mat(nmod_poly_mat_t a, const nmod_mat_t c, slong d) { FORALL(a) nmod_poly_set_coeff_ui(PM(a, i, j), d, nmod_mat_entry(c, i, j)); }
void nmod_poly_mat_set_nmod_mat(nmod_poly_mat_t a, const nmod_mat_t c) { FORALL(a) { nmod_poly_zero(PM(a, i, j)); nmod_poly_set_coeff_ui(PM(a, i, j), 0, nmod_mat_entry(c, i, j)); } }
// fraction-free (Bareiss) elimination; returns rank, sets the determinant when square
static slong bareiss(const nmod_poly_mat_t a, V * det) { nmod_t m; nmod_init(&m, a->modulus); slong R = a->r, C = a->c; std::vector<std::vector<V>> M(R, std::vector<V>(C)); FORALL(a) M[i][j] = pget(PM(a, i, j)); V prev(1, 1 % m.n); slong rk = 0; int neg = 0, sing = 0;
    for (slong j = 0; j < C && rk < R; j++) { slong p = rk; while (p < R && M[p][j].empty()) p++; if (p == R) { sing = 1; continue; } if (p != rk) { std::swap(M[p], M[rk]); neg ^= 1; } for (slong i = rk + 1; i < R; i++) { for (slong k = j + 1; k < C; k++) { V t = vsub(vmul(M[rk][j], M[i][k], m), vmul(M[i][j], M[rk][k], m), m), q, r; vdivrem(q, r, t, prev, m); M[i][k] = q; } M[i][j].clear(); } prev = M[rk][j]; rk++; }
    if (det) { if (sing || rk < R) det->clear(); else *det = neg ? vsub(V(), prev, m) : prev; } return rk; }
void nmod_poly_mat_det(nmod_poly_t d, const nmod_poly_mat_t a) { V v; bareiss(a, &v); if (a->r == 0) v = V(1, 1 % a->modulus); pset(d, v); }
slong nmod_poly_mat_rank(const nmod_poly_mat_t a) { return bareiss(a, nullptr); }
void nmod_poly_mat_randtest(nmod_poly_mat_t m, flint_rand_t st, slong n) { FORALL(m) nmod_poly_randtest(PM(m, i, j), st, n); }
void nmod_poly_mat_randtest_sparse(nmod_poly_mat_t m, flint_rand_t st, slong n, float d) { FORALL(m) if (n_randint(st, 1000) < d * 1000) nmod_poly_randtest_not_zero(PM(m, i, j), st, n); else nmod_poly_zero(PM(m, i, j)); }
void nmod_poly_mat_print(const nmod_poly_mat_t m, const char * x) { printf("<%ld x %ld matrix over Z/nZ[%s]>\n", (long) m->r, (long) m->c, x); for (slong i = 0; i < m->r; i++) { printf("["); for (slong j = 0; j < m->c; j++) { nmod_poly_print_pretty(PM(m, i, j), x); printf(j + 1 < m->c ? ", " : ""); } printf("]\n"); } }
void fmpz_mat_randbits(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits) { FORALL(m) fmpz_randbits(fmpz_mat_entry(m, i, j), st, bits); }
static void randtri(nmod_mat_t m, flint_rand_t st, int unit, int low) { FORALL(m) nmod_mat_entry(m, i, j) = i == j ? (unit ? 1 : 1 + n_randint(st, m->mod.n - 1)) : ((low ? j < i : j > i) ? n_randint(st, m->mod.n) : 0); }
void nmod_mat_randtril(nmod_mat_t m, flint_rand_t st, int unit) { randtri(m, st, unit, 1); }
void nmod_mat_randtriu(nmod_mat_t m, flint_rand_t st, int unit) { randtri(m, st, unit, 0); }
slong nmod_poly_mat_degree(const nmod_poly_mat_t m) { return nmod_poly_mat_max_length(m) - 1; }
// ---- functions flint-extras does not call today
static V vof(nn_srcptr a, slong n) { V v(a, a + (n > 0 ? n : 0)); return v; }
static void vto(nn_ptr r, const V & v, slong n) { for (slong i = 0; i < n; i++) r[i] = i < (slong) v.size() ? v[i] : 0; }
void _nmod_poly_mul(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m) { vto(r, vmul(vof(a, la), vof(b, lb), m), la + lb - 1); }
void _nmod_poly_mullow(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, slong n, nmod_t m) { vto(r, vmul(vof(a, la), vof(b, lb), m), n); }
void _nmod_poly_add(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m) { vto(r, vadd(vof(a, la), vof(b, lb), m), FLINT_MAX(la, lb)); }
void _nmod_poly_sub(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m) { vto(r, vsub(vof(a, la), vof(b, lb), m), FLINT_MAX(la, lb)); }
void nmod_poly_div_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { if (!b->length || !b->coeffs[0]) flint_throw(FLINT_DIVZERO, "nmod_poly_div_series"); nmod_t m = b->mod; ulong iv = nmod_inv(b->coeffs[0], m); V q(n); for (slong i = 0; i < n; i++) { ulong s = nmod_poly_get_coeff_ui(a, i); for (slong j = 1; j <= i; j++) s = nmod_sub(s, nmod_mul(nmod_poly_get_coeff_ui(b, j), q[i - j], m), m); q[i] = nmod_mul(s, iv, m); } pset(r, q); }
void nmod_poly_inv_series(nmod_poly_t r, const nmod_poly_t a, slong n) { nmod_poly_t o; nmod_poly_init_mod(o, a->mod); nmod_poly_one(o); nmod_poly_div_series(r, o, a, n); nmod_poly_clear(o); }
void nmod_poly_derivative(nmod_poly_t r, const nmod_poly_t a) { V v = pget(a), w; for (size_t i = 1; i < v.size(); i++) w.push_back(nmod_mul(v[i], i % a->mod.n, a->mod)); pset(r, w); }
void nmod_poly_mulmod(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, const nmod_poly_t f) { nmod_poly_t t; nmod_poly_init_mod(t, a->mod); nmod_poly_mul(t, a, b); nmod_poly_rem(r, t, f); nmod_poly_clear(t); }
void nmod_poly_lcm(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { if (!a->length || !b->length) { nmod_poly_zero(r); return; } nmod_poly_t g, t; nmod_poly_init_mod(g, a->mod); nmod_poly_init_mod(t, a->mod); nmod_poly_gcd(g, a, b); nmod_poly_mul(t, a, b); nmod_poly_div(t, t, g); nmod_poly_make_monic(r, t); nmod_poly_clear(g); nmod_poly_clear(t); }
void nmod_poly_mat_concat_horizontal(nmod_poly_mat_t r, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { FORALL(a) nmod_poly_set(PM(r, i, j), PM(a, i, j)); FORALL(b) nmod_poly_set(PM(r, i, j + a->c), PM(b, i, j)); }
void nmod_poly_mat_concat_vertical(nmod_poly_mat_t r, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { FORALL(a) nmod_poly_set(PM(r, i, j), PM(a, i, j)); FORALL(b) nmod_poly_set(PM(r, i + a->r, j), PM(b, i, j)); }
void nmod_poly_mat_trace(nmod_poly_t t, const nmod_poly_mat_t m) { V s; nmod_t q; nmod_init(&q, m->modulus); for (slong i = 0; i < m->r; i++) s = vadd(s, pget(PM(m, i, i)), q); pset(t, s); }
int nmod_poly_mat_equal_nmod_mat(const nmod_poly_mat_t a, const nmod_mat_t b) { if (a->r != b->r || a->c != b->c) return 0; FORALL(a) if (!nmod_poly_equal_ui(PM(a, i, j), nmod_mat_entry(b, i, j))) return 0; return 1; }
int nmod_poly_mat_is_zero_row(const nmod_poly_mat_t m, slong i) { for (slong j = 0; j < m->c; j++) if (PM(m, i, j)->length) return 0; return 1; }

// ---- rationals
struct Q { mpq_t q; Q() { mpq_init(q); } Q(const fmpq * x) { mpq_init(q); fmpz_get_mpz(mpq_numref(q), &x->num); fmpz_get_mpz(mpq_denref(q), &x->den); if (mpz_sgn(mpq_denref(q)) <= 0) flint_shim_pre("rational with a denominator that is not positive"); } ~Q() { mpq_clear(q); } Q(const Q &) = delete; void to(fmpq * x) { mpq_canonicalize(q); fmpz_set_mpz(&x->num, mpq_numref(q)); fmpz_set_mpz(&x->den, mpq_denref(q)); } };
void fmpq_set(fmpq_t x, const fmpq_t y) { Q a(y); a.to(x); } void fmpq_zero(fmpq_t x) { Q a; a.to(x); } void fmpq_one(fmpq_t x) { Q a; mpq_set_si(a.q, 1, 1); a.to(x); }
int fmpq_is_zero(const fmpq_t x) { Q a(x); return mpq_sgn(a.q) == 0; } int fmpq_equal(const fmpq_t x, const fmpq_t y) { Q a(x), b(y); return mpq_equal(a.q, b.q) != 0; }
int fmpq_set_str(fmpq_t x, const char * s, int b) { Q a; if (mpq_set_str(a.q, s, b) || mpz_sgn(mpq_denref(a.q)) == 0) return -1; a.to(x); return 0; }
char * fmpq_get_str(char * s, int b, const fmpq_t x) { Q a(x); if (!s) s = (char *) flint_malloc(mpz_sizeinbase(mpq_numref(a.q), b) + mpz_sizeinbase(mpq_denref(a.q), b) + 3); return mpq_get_str(s, b, a.q); }
void fmpq_set_fmpz(fmpq_t x, const fmpz_t z) { Z t(z); Q a; mpq_set_z(a.q, t.z); a.to(x); } void fmpq_set_si(fmpq_t x, slong p, ulong q) { Q a; mpq_set_si(a.q, p, q); a.to(x); } void fmpq_canonicalise(fmpq_t x) { Q a(x); a.to(x); }
#define QOP3(name, fn) void name(fmpq_t x, const fmpq_t y, const fmpq_t z) { Q a(y), b(z), c; fn(c.q, a.q, b.q); c.to(x); }
QOP3(fmpq_add, mpq_add) QOP3(fmpq_sub, mpq_sub) QOP3(fmpq_mul, mpq_mul)
void fmpq_div(fmpq_t x, const fmpq_t y, const fmpq_t z) { Q a(y), b(z), c; if (mpq_sgn(b.q) == 0) flint_throw(FLINT_ERROR, "Exception (fmpq_div). Division by zero.\n"); mpq_div(c.q, a.q, b.q); c.to(x); }
void fmpq_inv(fmpq_t x, const fmpq_t y) { Q a(y), c; if (mpq_sgn(a.q) == 0) flint_throw(FLINT_ERROR, "Exception (fmpq_inv). Division by zero.\n"); mpq_inv(c.q, a.q); c.to(x); }
void fmpq_addmul(fmpq_t x, const fmpq_t y, const fmpq_t z) { Q a(y), b(z), c(x); mpq_mul(a.q, a.q, b.q); mpq_add(c.q, c.q, a.q); c.to(x); } void fmpq_submul(fmpq_t x, const fmpq_t y, const fmpq_t z) { Q a(y), b(z), c(x); mpq_mul(a.q, a.q, b.q); mpq_sub(c.q, c.q, a.q); c.to(x); }
void fmpq_neg(fmpq_t x, const fmpq_t y) { Q a(y); mpq_neg(a.q, a.q); a.to(x); } void fmpq_mul_fmpz(fmpq_t x, const fmpq_t y, const fmpz_t z) { Z t(z); Q a(y), b; mpq_set_z(b.q, t.z); mpq_mul(a.q, a.q, b.q); a.to(x); }
fmpq * _fmpq_vec_init(slong n) { fmpq * v = (fmpq *) flint_malloc(n * sizeof(fmpq)); for (slong i = 0; i < n; i++) fmpq_init(v + i); return v; } void _fmpq_vec_clear(fmpq * v, slong n) { for (slong i = 0; i < n; i++) fmpq_clear(v + i); flint_free(v); }
void fmpq_poly_clear(fmpq_poly_t p) { for (slong i = 0; i < p->alloc; i++) fmpq_clear(p->coeffs + i); free(p->coeffs); p->coeffs = NULL; p->alloc = p->length = 0; }
void fmpq_poly_set_coeff_fmpq(fmpq_poly_t p, slong i, const fmpq_t x) { if (i >= p->alloc) { p->coeffs = (fmpq *) flint_realloc(p->coeffs, (i + 1) * sizeof(fmpq)); for (slong k = p->alloc; k <= i; k++) fmpq_init(p->coeffs + k); p->alloc = i + 1; } for (slong k = p->length; k < i; k++) fmpq_zero(p->coeffs + k); fmpq_set(p->coeffs + i, x); p->length = std::max(p->length, i + 1); while (p->length && fmpq_is_zero(p->coeffs + p->length - 1)) p->length--; }
void fmpq_poly_get_coeff_fmpq(fmpq_t x, const fmpq_poly_t p, slong i) { if (i < p->length) fmpq_set(x, p->coeffs + i); else fmpq_zero(x); }
void fmpq_poly_evaluate_fmpq(fmpq_t r, const fmpq_poly_t p, const fmpq_t a) { Q x(a), v; for (slong i = p->length - 1; i >= 0; i--) { Q c(p->coeffs + i); mpq_mul(v.q, v.q, x.q); mpq_add(v.q, v.q, c.q); } v.to(r); }
void fmpq_poly_evaluate_fmpz(fmpq_t r, const fmpq_poly_t p, const fmpz_t a) { fmpq_t x; fmpq_init(x); fmpq_set_fmpz(x, a); fmpq_poly_evaluate_fmpq(r, p, x); fmpq_clear(x); }
// right nullspace: fraction-free elimination to a diagonal d on the pivot columns, then one column per free column
slong nmod_poly_mat_nullspace(nmod_poly_mat_t x, const nmod_poly_mat_t a) { nmod_t m; nmod_init(&m, a->modulus); slong R = a->r, C = a->c; std::vector<std::vector<V>> M(R, std::vector<V>(C)); FORALL(a) M[i][j] = pget(PM(a, i, j)); V d(1, 1 % m.n); std::vector<slong> pc; slong rk = 0;
    for (slong j = 0; j < C && rk < R; j++) { slong p = rk; while (p < R && M[p][j].empty()) p++; if (p == R) continue; std::swap(M[p], M[rk]); V piv = M[rk][j]; for (slong i = 0; i < R; i++) if (i != rk) { V f = M[i][j]; for (slong k = 0; k < C; k++) { V t = vsub(vmul(piv, M[i][k], m), vmul(f, M[rk][k], m), m); V q, r; vdivrem(q, r, t, d, m); M[i][k] = q; } } d = piv; pc.push_back(j); rk++; }
    nmod_poly_mat_zero(x); slong z = 0; for (slong j = 0, q = 0; j < C; j++) { if (q < rk && pc[q] == j) { q++; continue; } pset(nmod_poly_mat_entry(x, j, z), d); for (slong i = 0; i < rk; i++) pset(nmod_poly_mat_entry(x, pc[i], z), vsub(V(), M[i][j], m)); z++; } return z; }
