/* A small stand-in for the part of FLINT's public interface that PML's flint-extras uses.
   Written for the checks in /verif (FLINT itself is not installed here); plain algorithms only.
   Structure layouts and calling conventions follow FLINT 3.6 (matrices with a stride). */
#ifndef FLINT_SHIM_H
#define FLINT_SHIM_H
#include <gmp.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#include <alloca.h>
#include <assert.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif
#define __FLINT_VERSION 3
#ifndef __FLINT_VERSION_MINOR
#define __FLINT_VERSION_MINOR 6
#endif
#define __FLINT_VERSION_PATCHLEVEL 0
#define FLINT_VERSION "3.6.0-shim"
#define __FLINT_RELEASE 30600
#define FLINT_BITS 64
#define FLINT_D_BITS 53
#define FLINT64 1
#define ulong mp_limb_t
#define slong mp_limb_signed_t
typedef mp_limb_t * nn_ptr; typedef const mp_limb_t * nn_srcptr;
typedef mp_limb_t * mp_ptr_; 
typedef ulong flint_bitcnt_t;
#define UWORD(x) (x##UL)
#define WORD(x) (x##L)
#define UWORD_MAX ULONG_MAX
#define UWORD_MIN UWORD(0)
#define WORD_MAX LONG_MAX
#define WORD_MIN LONG_MIN
#define WORD_FMT "l"
#define WORD_WIDTH_FMT "*l"
#define COEFF_MAX ((WORD(1) << 62) - 1)
#define COEFF_MIN (-COEFF_MAX)
#define FLINT_MAX(x,y) ((x) > (y) ? (x) : (y))
#define FLINT_MIN(x,y) ((x) > (y) ? (y) : (x))
#define FLINT_ABS(x) ((slong)(x) < 0 ? (-(x)) : (x))
#define FLINT_SGN(x) (((slong)(x) > 0) - ((slong)(x) < 0))
#define FLINT_SWAP(T, x, y) do { T _swap_t = (x); (x) = (y); (y) = _swap_t; } while (0)
#define FLINT_INLINE static inline
#define FLINT_STATIC_NOINLINE static __attribute__((noinline))
#define FLINT_FORCE_INLINE static inline __attribute__((always_inline))
#define FLINT_DLL
#define FLINT_UNUSED(x) x __attribute__((unused))
#define FLINT_SET_BUT_UNUSED(x) x __attribute__((unused))
#define FLINT_NORETURN __attribute__((noreturn))
#define FLINT_ASSERT(p)
#define FLINT_LIKELY(x) __builtin_expect((x),1)
#define FLINT_UNLIKELY(x) __builtin_expect((x),0)
#define FLINT_ALIGN(x) __attribute__((aligned(x)))
#define FLINT_BIT_COUNT(x) ((x) ? 64 - __builtin_clzl(x) : 0)
#define FLINT_FLOG2(k) (63 - __builtin_clzl(k))
#define FLINT_CLOG2(k) (((k) <= 1) ? 0 : 64 - __builtin_clzl((k) - 1))
#define FLINT_ARRAY_ALLOC(n, T) ((T *) flint_malloc((n) * sizeof(T)))
#define FLINT_ARRAY_REALLOC(p, n, T) ((T *) flint_realloc(p, (n) * sizeof(T)))
#define flint_clz(x) __builtin_clzl(x)
#define flint_ctz(x) __builtin_ctzl(x)
void * flint_malloc(size_t n); void * flint_calloc(size_t n, size_t m); void * flint_realloc(void * p, size_t n); void flint_free(void * p);
void * flint_aligned_alloc(size_t al, size_t n); void flint_aligned_free(void * p); void flint_cleanup(void); void flint_cleanup_master(void);
#define TMP_INIT typedef struct __tmp_struct { void * block; struct __tmp_struct * next; } __tmp_t; __tmp_t * __tmp_root = NULL
#define TMP_START do { } while (0)
#define TMP_ALLOC(n) ({ __tmp_t * __b = (__tmp_t *) flint_malloc(sizeof(__tmp_t)); __b->block = flint_malloc(n); __b->next = __tmp_root; __tmp_root = __b; __b->block; })
#define TMP_ARRAY_ALLOC(n, T) ((T *) TMP_ALLOC((n) * sizeof(T)))
#define TMP_END do { while (__tmp_root) { __tmp_t * __b = __tmp_root; __tmp_root = __b->next; flint_free(__b->block); flint_free(__b); } } while (0)
typedef enum { FLINT_ERROR, FLINT_OVERFLOW, FLINT_IMPINV, FLINT_DOMERR, FLINT_DIVZERO, FLINT_EXPOF, FLINT_INEXACT, FLINT_TEST_FAIL } flint_err_t;
void flint_throw(flint_err_t e, const char * msg, ...) FLINT_NORETURN;
void flint_abort(void) FLINT_NORETURN;
extern void (*flint_shim_throw)(const char * msg);
int flint_printf(const char * fmt, ...); int flint_fprintf(FILE * f, const char * fmt, ...); int flint_sprintf(char * s, const char * fmt, ...);
static inline int flint_get_num_threads(void) { return 1; }
static inline void flint_set_num_threads(int n) { (void) n; }
/* random */
typedef struct { ulong s; } flint_rand_struct; typedef flint_rand_struct flint_rand_t[1];
static inline void flint_rand_init(flint_rand_t st) { st->s = 0; }
static inline void flint_randinit(flint_rand_t st) { st->s = 0; }
static inline void flint_rand_clear(flint_rand_t st) { (void) st; }
static inline void flint_randclear(flint_rand_t st) { (void) st; }
static inline void flint_rand_set_seed(flint_rand_t st, ulong a, ulong b) { st->s = a * UWORD(0x9e3779b97f4a7c15) + b; }
static inline void flint_randseed(flint_rand_t st, ulong a, ulong b) { flint_rand_set_seed(st, a, b); }
static inline ulong n_randlimb(flint_rand_t st) { ulong z = (st->s += UWORD(0x9e3779b97f4a7c15)); z = (z ^ (z >> 30)) * UWORD(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)) * UWORD(0x94d049bb133111eb); return z ^ (z >> 31); }
static inline ulong n_randint(flint_rand_t st, ulong n) { ulong x = n_randlimb(st); return n ? x % n : x; }
static inline ulong n_urandint(flint_rand_t st, ulong n) { return n_randint(st, n); }
ulong n_randbits(flint_rand_t st, unsigned int bits); ulong n_randtest_bits(flint_rand_t st, int bits); ulong n_randtest(flint_rand_t st); ulong n_randtest_not_zero(flint_rand_t st); ulong n_randtest_prime(flint_rand_t st, int proved); ulong n_randprime(flint_rand_t st, ulong bits, int proved);
/* longlong */
#define umul_ppmm(hi, lo, a, b) do { unsigned __int128 _p = (unsigned __int128)(ulong)(a) * (ulong)(b); (hi) = (ulong)(_p >> 64); (lo) = (ulong) _p; } while (0)
#define add_ssaaaa(sh, sl, ah, al, bh, bl) do { unsigned __int128 _s = (((unsigned __int128)(ulong)(ah)) << 64 | (ulong)(al)) + (((unsigned __int128)(ulong)(bh)) << 64 | (ulong)(bl)); (sh) = (ulong)(_s >> 64); (sl) = (ulong) _s; } while (0)
#define sub_ddmmss(sh, sl, ah, al, bh, bl) do { unsigned __int128 _s = (((unsigned __int128)(ulong)(ah)) << 64 | (ulong)(al)) - (((unsigned __int128)(ulong)(bh)) << 64 | (ulong)(bl)); (sh) = (ulong)(_s >> 64); (sl) = (ulong) _s; } while (0)
#define add_sssaaaaaa(s2, s1, s0, a2, a1, a0, b2, b1, b0) do { ulong _a2 = (a2), _b2 = (b2), _a1 = (a1), _b1 = (b1); unsigned __int128 _l = (unsigned __int128)(ulong)(a0) + (ulong)(b0); unsigned __int128 _m = (unsigned __int128) _a1 + _b1 + (ulong)(_l >> 64); (s0) = (ulong) _l; (s1) = (ulong) _m; (s2) = _a2 + _b2 + (ulong)(_m >> 64); } while (0)
#define sub_dddmmmsss(s2, s1, s0, a2, a1, a0, b2, b1, b0) do { ulong _a2 = (a2), _b2 = (b2), _a1 = (a1), _b1 = (b1), _a0 = (a0), _b0 = (b0); ulong _c0 = _a0 < _b0; ulong _t = _a1 - _b1; ulong _c1 = (_a1 < _b1) + (_t < _c0); (s0) = _a0 - _b0; (s1) = _t - _c0; (s2) = _a2 - _b2 - _c1; } while (0)
#define udiv_qrnnd(q, r, nh, nl, d) do { unsigned __int128 _n = ((unsigned __int128)(ulong)(nh)) << 64 | (ulong)(nl); ulong _d = (d); (q) = (ulong)(_n / _d); (r) = (ulong)(_n % _d); } while (0)
#define flint_mpn_copyi(d, s, n) memmove((d), (s), (size_t)(n) * sizeof(ulong))
#define flint_mpn_zero(d, n) memset((d), 0, (size_t)(n) * sizeof(ulong))
static inline int flint_mpn_zero_p(nn_srcptr x, slong n) { for (slong i = 0; i < n; i++) if (x[i]) return 0; return 1; }
/* ulong_extras */
ulong n_cbrt(ulong n); ulong n_sqrt(ulong n); ulong n_pow(ulong n, ulong e); ulong n_invmod(ulong a, ulong n); ulong n_nextprime(ulong n, int proved); int n_is_prime(ulong n); ulong n_gcd(ulong a, ulong b); ulong n_primitive_root_prime(ulong p);
ulong n_preinvert_limb(ulong n); slong n_clog(ulong n, ulong b); slong n_flog(ulong n, ulong b); ulong n_clog2(ulong n);
static inline ulong n_mulmod2(ulong a, ulong b, ulong n) { return (ulong)((unsigned __int128) a * b % n); }
static inline ulong n_mulmod2_preinv(ulong a, ulong b, ulong n, ulong ni) { (void) ni; return n_mulmod2(a, b, n); }
static inline ulong n_mod2_preinv(ulong a, ulong n, ulong ni) { (void) ni; return a % n; }
static inline ulong n_mulhi(ulong a, ulong b) { return (ulong)(((unsigned __int128) a * b) >> 64); }
static inline ulong n_mulmod_precomp_shoup(ulong w, ulong p) { return (ulong)((((unsigned __int128) w) << 64) / p); }
static inline ulong n_mulmod_shoup(ulong w, ulong t, ulong wp, ulong p) { ulong q = n_mulhi(wp, t); ulong r = w * t - q * p; return r >= p ? r - p : r; }
static inline ulong n_addmod(ulong a, ulong b, ulong n) { return (ulong)(((unsigned __int128) a + b) % n); }
static inline ulong n_submod(ulong a, ulong b, ulong n) { return a >= b ? a - b : a + (n - b); }
static inline ulong n_negmod(ulong a, ulong n) { return a ? n - a : 0; }
ulong n_powmod2(ulong a, slong e, ulong n);
/* nmod */
void flint_shim_pre(const char * msg);
typedef struct { ulong n; ulong ninv; flint_bitcnt_t norm; } nmod_t;
#define NMOD_BITS(mod) (FLINT_BITS - (mod).norm)
#define NMOD_CAN_USE_SHOUP(mod) ((mod).norm > 0)
static inline void nmod_init(nmod_t * mod, ulong n) { mod->n = n; mod->ninv = n_preinvert_limb(n); mod->norm = n ? __builtin_clzl(n) : 64; }
/* FLINT divides with the precomputed ninv and norm: they have to belong to n */
extern ulong flint_shim_n, flint_shim_ninv; void flint_shim_mod_check(ulong n, ulong ninv, ulong norm);
static inline void flint_shim_mod(nmod_t m) { if (__builtin_expect(m.n != flint_shim_n || m.ninv != flint_shim_ninv || m.norm != (ulong) __builtin_clzl(m.n), 0)) flint_shim_mod_check(m.n, m.ninv, m.norm); }
#define NMOD_RED(r, a, mod) do { ulong _a1 = (a); flint_shim_mod(mod); (r) = _a1 % (mod).n; } while (0)
#define NMOD2_RED2(r, ah, al, mod) do { (r) = (ulong)(((((unsigned __int128)(ulong)((ulong)(ah) % (mod).n)) << 64) | (ulong)(al)) % (mod).n); } while (0)
/* FLINT's documented requirements are checked: where they fail, FLINT's results are garbage */
#define FLINT_SHIM_PRE(ok, msg) do { if (__builtin_expect(!(ok), 0)) flint_shim_pre(msg); } while (0)
#define NMOD_RED2(r, ah, al, mod) do { ulong _h2 = (ah); flint_shim_mod(mod); FLINT_SHIM_PRE(_h2 < (mod).n, "NMOD_RED2 called with a high limb that is not reduced"); NMOD2_RED2(r, _h2, al, mod); } while (0)
#define NMOD_RED3(r, a2, a1, a0, mod) do { ulong _v, _h3 = (a2); flint_shim_mod(mod); FLINT_SHIM_PRE(_h3 < (mod).n, "NMOD_RED3 called with a high limb that is not reduced"); NMOD2_RED2(_v, _h3, a1, mod); NMOD2_RED2(r, _v, a0, mod); } while (0)
static inline ulong _nmod_add(ulong a, ulong b, nmod_t m) { FLINT_SHIM_PRE((unsigned __int128) a + b < (unsigned __int128) m.n * 2, "nmod_add called with operands that are not reduced"); return (ulong)(((unsigned __int128) a + b) >= m.n ? (ulong)((unsigned __int128) a + b - m.n) : a + b); }
static inline ulong nmod_add(ulong a, ulong b, nmod_t m) { return _nmod_add(a, b, m); }
static inline ulong _nmod_sub(ulong a, ulong b, nmod_t m) { FLINT_SHIM_PRE(a >= b ? a - b < m.n : b - a <= m.n, "nmod_sub called with operands that are not reduced"); return a >= b ? a - b : a + (m.n - b); }
static inline ulong nmod_sub(ulong a, ulong b, nmod_t m) { return _nmod_sub(a, b, m); }
static inline ulong nmod_neg(ulong a, nmod_t m) { FLINT_SHIM_PRE(a <= m.n, "nmod_neg called with an operand that is not reduced"); return a ? m.n - a : 0; }
static inline ulong nmod_mul(ulong a, ulong b, nmod_t m) { flint_shim_mod(m); FLINT_SHIM_PRE((ulong)(((unsigned __int128) a * b) >> 64) < m.n, "nmod_mul called with operands that are not reduced"); return (ulong)((unsigned __int128) a * b % m.n); }
static inline ulong _nmod_mul_fullword(ulong a, ulong b, nmod_t m) { return nmod_mul(a, b, m); }
static inline ulong nmod_addmul(ulong a, ulong b, ulong c, nmod_t m) { return nmod_add(a, nmod_mul(b, c, m), m); }
#define NMOD_ADDMUL(r, a, b, mod) do { (r) = nmod_addmul((r), (a), (b), (mod)); } while (0)
static inline ulong nmod_inv(ulong a, nmod_t m) { return n_invmod(a, m.n); }
static inline ulong nmod_div(ulong a, ulong b, nmod_t m) { return nmod_mul(a, nmod_inv(b, m), m); }
static inline ulong nmod_set_ui(ulong a, nmod_t m) { return a % m.n; }
static inline ulong nmod_set_si(slong a, nmod_t m) { ulong r = (a < 0 ? - (ulong) a : (ulong) a) % m.n; return a < 0 ? nmod_neg(r, m) : r; }
ulong nmod_pow_ui(ulong a, ulong e, nmod_t m);
/* perm */
slong * _perm_init(slong n); static inline void _perm_clear(slong * v) { flint_free(v); }
void _perm_one(slong * v, slong n); void _perm_set(slong * r, const slong * v, slong n); void _perm_inv(slong * r, const slong * v, slong n); void _perm_compose(slong * r, const slong * v1, const slong * v2, slong n); int _perm_parity(const slong * v, slong n); int _perm_randtest(slong * v, slong n, flint_rand_t st); int _perm_equal(const slong * a, const slong * b, slong n); int _perm_print(const slong * v, slong n);
/* fmpz */
typedef slong fmpz; typedef fmpz fmpz_t[1];
#define COEFF_IS_MPZ(x) (((x) >> 62) == WORD(1))
#define COEFF_TO_PTR(x) ((mpz_ptr) ((ulong)(x) << 2))
#define PTR_TO_COEFF(x) (((ulong)(x) >> 2) | (WORD(1) << 62))
static inline void fmpz_init(fmpz_t f) { *f = 0; }
void fmpz_init2(fmpz_t f, ulong limbs); void fmpz_clear(fmpz_t f); void fmpz_set(fmpz_t f, const fmpz_t g); void fmpz_init_set(fmpz_t f, const fmpz_t g); void fmpz_set_ui(fmpz_t f, ulong x); void fmpz_set_si(fmpz_t f, slong x); void fmpz_init_set_ui(fmpz_t f, ulong x); void fmpz_init_set_si(fmpz_t f, slong x); void fmpz_set_mpz(fmpz_t f, const mpz_t x); void fmpz_get_mpz(mpz_t x, const fmpz_t f);
ulong fmpz_get_ui(const fmpz_t f); slong fmpz_get_si(const fmpz_t f); static inline void fmpz_zero(fmpz_t f) { fmpz_set_ui(f, 0); } static inline void fmpz_one(fmpz_t f) { fmpz_set_ui(f, 1); } static inline void fmpz_swap(fmpz_t f, fmpz_t g) { fmpz t = *f; *f = *g; *g = t; }
static inline int fmpz_is_zero(const fmpz_t f) { return *f == 0; } static inline int fmpz_is_one(const fmpz_t f) { return *f == 1; } int fmpz_sgn(const fmpz_t f); int fmpz_cmp(const fmpz_t f, const fmpz_t g); int fmpz_cmpabs(const fmpz_t f, const fmpz_t g); int fmpz_cmp_ui(const fmpz_t f, ulong g); int fmpz_cmp_si(const fmpz_t f, slong g); int fmpz_equal(const fmpz_t f, const fmpz_t g); int fmpz_equal_si(const fmpz_t f, slong g);
void fmpz_add(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_sub(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_mul(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_addmul(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_submul(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_add_ui(fmpz_t f, const fmpz_t g, ulong x); void fmpz_sub_ui(fmpz_t f, const fmpz_t g, ulong x); void fmpz_add_si(fmpz_t f, const fmpz_t g, slong x); void fmpz_mul_ui(fmpz_t f, const fmpz_t g, ulong x); void fmpz_mul_si(fmpz_t f, const fmpz_t g, slong x); void fmpz_addmul_ui(fmpz_t f, const fmpz_t g, ulong x); void fmpz_neg(fmpz_t f, const fmpz_t g); void fmpz_abs(fmpz_t f, const fmpz_t g); void fmpz_mul_2exp(fmpz_t f, const fmpz_t g, ulong e); void fmpz_fdiv_q_2exp(fmpz_t f, const fmpz_t g, ulong e); void fmpz_tdiv_q_2exp(fmpz_t f, const fmpz_t g, ulong e); void fmpz_fdiv_q(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_fdiv_r(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_fdiv_qr(fmpz_t f, fmpz_t s, const fmpz_t g, const fmpz_t h); void fmpz_tdiv_qr(fmpz_t f, fmpz_t s, const fmpz_t g, const fmpz_t h); void fmpz_mod(fmpz_t f, const fmpz_t g, const fmpz_t h); ulong fmpz_fdiv_ui(const fmpz_t g, ulong h); ulong fmpz_mod_ui(fmpz_t f, const fmpz_t g, ulong h); void fmpz_divexact(fmpz_t f, const fmpz_t g, const fmpz_t h); void fmpz_divexact_ui(fmpz_t f, const fmpz_t g, ulong h); void fmpz_pow_ui(fmpz_t f, const fmpz_t g, ulong e); int fmpz_invmod(fmpz_t f, const fmpz_t g, const fmpz_t h); flint_bitcnt_t fmpz_bits(const fmpz_t f); slong fmpz_size(const fmpz_t f); void fmpz_gcd(fmpz_t f, const fmpz_t g, const fmpz_t h); int fmpz_print(const fmpz_t f); void fmpz_randbits(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits); void fmpz_randtest(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits); void fmpz_randtest_unsigned(fmpz_t f, flint_rand_t st, flint_bitcnt_t bits); void fmpz_randm(fmpz_t f, flint_rand_t st, const fmpz_t m); ulong fmpz_get_nmod(const fmpz_t f, nmod_t m); char * fmpz_get_str(char * s, int b, const fmpz_t f);
void _fmpz_smod(fmpz_t r, const fmpz_t a, const fmpz_t m, int sign, fmpz_t t);
fmpz * _fmpz_vec_init(slong n); void _fmpz_vec_clear(fmpz * v, slong n);
typedef struct { slong in_idx, out_idx; fmpz_t modulus; } _fmpz_multi_mod_instr;
typedef struct { fmpz * moduli; slong moduli_count; slong localsize; } fmpz_multi_mod_struct; typedef fmpz_multi_mod_struct fmpz_multi_mod_t[1];
typedef struct { slong a_idx, b_idx, c_idx; fmpz_t b_modulus, c_modulus; } _fmpz_multi_CRT_instr;
typedef struct { _fmpz_multi_CRT_instr * prog; fmpz * moduli, * fracmoduli; fmpz_t final_modulus; slong moduli_count; flint_bitcnt_t min_modulus_bits; slong length, alloc, localsize, temp1loc, temp2loc, temp3loc, temp4loc; int good; } fmpz_multi_CRT_struct; typedef fmpz_multi_CRT_struct fmpz_multi_CRT_t[1];
void fmpz_multi_mod_init(fmpz_multi_mod_t P); int fmpz_multi_mod_precompute(fmpz_multi_mod_t P, const fmpz * m, slong n); void fmpz_multi_mod_precomp(fmpz * out, const fmpz_multi_mod_t P, const fmpz_t in, int sign); void fmpz_multi_mod_clear(fmpz_multi_mod_t P);
void fmpz_multi_CRT_init(fmpz_multi_CRT_t P); int fmpz_multi_CRT_precompute(fmpz_multi_CRT_t P, const fmpz * m, slong n); void fmpz_multi_CRT_precomp(fmpz_t out, const fmpz_multi_CRT_t P, const fmpz * in, int sign); void fmpz_multi_CRT_clear(fmpz_multi_CRT_t P);
typedef struct { fmpz * entries; slong r, c, stride; } fmpz_mat_struct; typedef fmpz_mat_struct fmpz_mat_t[1];
#define fmpz_mat_nrows(m) ((m)->r)
#define fmpz_mat_ncols(m) ((m)->c)
static inline fmpz * fmpz_mat_entry(const fmpz_mat_t m, slong i, slong j) { return m->entries + i * m->stride + j; }
void fmpz_mat_init(fmpz_mat_t m, slong r, slong c); void fmpz_mat_clear(fmpz_mat_t m); void fmpz_mat_zero(fmpz_mat_t m); void fmpz_mat_set(fmpz_mat_t a, const fmpz_mat_t b); int fmpz_mat_equal(const fmpz_mat_t a, const fmpz_mat_t b); slong fmpz_mat_max_bits(const fmpz_mat_t m); int fmpz_mat_print_pretty(const fmpz_mat_t m); void fmpz_mat_mul(fmpz_mat_t c, const fmpz_mat_t a, const fmpz_mat_t b); void fmpz_mat_randtest(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits); void fmpz_mat_swap_entrywise(fmpz_mat_t a, fmpz_mat_t b); void fmpz_mat_randtest_unsigned(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits);
typedef struct { fmpz * coeffs; slong alloc, length; } fmpz_poly_struct; typedef fmpz_poly_struct fmpz_poly_t[1];
typedef struct { fmpz_poly_struct * entries; slong r, c, stride; } fmpz_poly_mat_struct; typedef fmpz_poly_mat_struct fmpz_poly_mat_t[1];
/* nmod_vec */
#define NMOD_VEC_INLINE static inline
#define DOT_SPLIT_BITS 56
#define DOT_SPLIT_MASK UWORD(72057594037927935)
typedef enum { _DOT0 = 0, _DOT1 = 1, _DOT2_SPLIT = 2, _DOT2_HALF = 3, _DOT2 = 4, _DOT3_ACC = 5, _DOT3 = 6, _DOT_POW2 = 7 } dot_method_t;
typedef struct { dot_method_t method; ulong pow2_precomp; } dot_params_t;
static inline nn_ptr _nmod_vec_init(slong n) { return (nn_ptr) flint_malloc(n * sizeof(ulong)); }
static inline void _nmod_vec_clear(nn_ptr v) { flint_free(v); }
static inline void _nmod_vec_set(nn_ptr r, nn_srcptr v, slong n) { if (n > 0) memmove(r, v, n * sizeof(ulong)); }
static inline void _nmod_vec_zero(nn_ptr r, slong n) { if (n > 0) memset(r, 0, n * sizeof(ulong)); }
static inline int _nmod_vec_is_zero(nn_srcptr v, slong n) { for (slong i = 0; i < n; i++) if (v[i]) return 0; return 1; }
static inline int _nmod_vec_equal(nn_srcptr u, nn_srcptr v, slong n) { for (slong i = 0; i < n; i++) if (u[i] != v[i]) return 0; return 1; }
static inline void _nmod_vec_swap(nn_ptr a, nn_ptr b, slong n) { for (slong i = 0; i < n; i++) FLINT_SWAP(ulong, a[i], b[i]); }
void _nmod_vec_neg(nn_ptr r, nn_srcptr v, slong n, nmod_t m); void _nmod_vec_add(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m); void _nmod_vec_sub(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m); void _nmod_vec_reduce(nn_ptr r, nn_srcptr v, slong n, nmod_t m); void _nmod_vec_scalar_mul_nmod(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m); void _nmod_vec_scalar_mul_nmod_shoup(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m); void _nmod_vec_scalar_addmul_nmod(nn_ptr r, nn_srcptr v, slong n, ulong c, nmod_t m); flint_bitcnt_t _nmod_vec_max_bits(nn_srcptr v, slong n); void _nmod_vec_randtest(nn_ptr v, flint_rand_t st, slong n, nmod_t m);
int _nmod_vec_dot_bound_limbs(slong n, nmod_t m); dot_params_t _nmod_vec_dot_params(ulong n, nmod_t m); ulong _nmod_vec_dot(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t p); ulong _nmod_vec_dot_rev(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t p); ulong _nmod_vec_dot_ptr(nn_srcptr a, const nn_ptr * b, slong off, slong n, nmod_t m, dot_params_t p); ulong _nmod_vec_dot2_split(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, ulong pow2);
/* sums of products below 2^64, below 2^128 */
#define _NMOD_VEC_DOT1(res, i, len, e1, e2, mod) do { (res) = 0; for ((i) = 0; (i) < (len); (i)++) (res) += (e1) * (e2); NMOD_RED(res, res, mod); } while (0)
#define _NMOD_VEC_DOT2(res, i, len, e1, e2, mod) do { unsigned __int128 _acc = 0; for ((i) = 0; (i) < (len); (i)++) _acc += (unsigned __int128)(e1) * (e2); NMOD2_RED2(res, (ulong)(_acc >> 64), (ulong) _acc, mod); } while (0)
/* nmod_mat */
#define NMOD_MAT_INLINE static inline
typedef struct { ulong * entries; slong r, c, stride; nmod_t mod; } nmod_mat_struct; typedef nmod_mat_struct nmod_mat_t[1];
#define nmod_mat_entry(mat,i,j) ((mat)->entries[(i) * (mat)->stride + (j)])
static inline nn_ptr nmod_mat_entry_ptr(const nmod_mat_t m, slong i, slong j) { return m->entries + i * m->stride + j; }
static inline ulong nmod_mat_get_entry(const nmod_mat_t m, slong i, slong j) { return nmod_mat_entry(m, i, j); }
static inline void nmod_mat_set_entry(nmod_mat_t m, slong i, slong j, ulong x) { nmod_mat_entry(m, i, j) = x; }
static inline slong nmod_mat_nrows(const nmod_mat_t m) { return m->r; }
static inline slong nmod_mat_ncols(const nmod_mat_t m) { return m->c; }
static inline void nmod_mat_set_mod(nmod_mat_t m, ulong n) { nmod_init(&m->mod, n); }
static inline int nmod_mat_is_empty(const nmod_mat_t m) { return m->r == 0 || m->c == 0; }
static inline int nmod_mat_is_square(const nmod_mat_t m) { return m->r == m->c; }
void nmod_mat_init(nmod_mat_t m, slong r, slong c, ulong n); void nmod_mat_init_set(nmod_mat_t a, const nmod_mat_t b); void nmod_mat_clear(nmod_mat_t m); void nmod_mat_set(nmod_mat_t a, const nmod_mat_t b); void nmod_mat_swap(nmod_mat_t a, nmod_mat_t b); void nmod_mat_swap_entrywise(nmod_mat_t a, nmod_mat_t b); void nmod_mat_zero(nmod_mat_t m); void nmod_mat_one(nmod_mat_t m); int nmod_mat_is_zero(const nmod_mat_t m); int nmod_mat_is_one(const nmod_mat_t m); int nmod_mat_equal(const nmod_mat_t a, const nmod_mat_t b); int nmod_mat_is_zero_row(const nmod_mat_t m, slong i); void nmod_mat_window_init(nmod_mat_t w, const nmod_mat_t m, slong r1, slong c1, slong r2, slong c2); void nmod_mat_window_clear(nmod_mat_t w); void nmod_mat_transpose(nmod_mat_t a, const nmod_mat_t b); void nmod_mat_add(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_sub(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_neg(nmod_mat_t c, const nmod_mat_t a); void nmod_mat_mul(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_mul_classical(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_mul_strassen(nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_scalar_mul(nmod_mat_t c, const nmod_mat_t a, ulong s); void nmod_mat_scalar_addmul_ui(nmod_mat_t d, const nmod_mat_t x, const nmod_mat_t b, ulong c); void nmod_mat_mul_nmod_vec(nn_ptr c, const nmod_mat_t a, nn_srcptr b, slong n); void nmod_mat_nmod_vec_mul(nn_ptr c, nn_srcptr a, slong n, const nmod_mat_t b);
void nmod_mat_swap_rows(nmod_mat_t m, slong * perm, slong r, slong s); void nmod_mat_swap_cols(nmod_mat_t m, slong * perm, slong r, slong s); void nmod_mat_permute_rows(nmod_mat_t m, const slong * act, slong * store); void nmod_mat_randtest(nmod_mat_t m, flint_rand_t st); void nmod_mat_randfull(nmod_mat_t m, flint_rand_t st); void nmod_mat_randrank(nmod_mat_t m, flint_rand_t st, slong rank); void nmod_mat_randops(nmod_mat_t m, flint_rand_t st, slong count); void nmod_mat_print_pretty(const nmod_mat_t m); void nmod_mat_print(const nmod_mat_t m); void nmod_mat_concat_horizontal(nmod_mat_t r, const nmod_mat_t a, const nmod_mat_t b); void nmod_mat_concat_vertical(nmod_mat_t r, const nmod_mat_t a, const nmod_mat_t b);
slong nmod_mat_rref(nmod_mat_t m); slong nmod_mat_rank(const nmod_mat_t m); ulong nmod_mat_det(const nmod_mat_t m); int nmod_mat_inv(nmod_mat_t b, const nmod_mat_t a); slong nmod_mat_nullspace(nmod_mat_t x, const nmod_mat_t a); slong nmod_mat_lu(slong * p, nmod_mat_t a, int rank_check); slong nmod_mat_lu_classical(slong * p, nmod_mat_t a, int rank_check); slong nmod_mat_lu_recursive(slong * p, nmod_mat_t a, int rank_check); void nmod_mat_solve_tril(nmod_mat_t x, const nmod_mat_t l, const nmod_mat_t b, int unit); void nmod_mat_solve_triu(nmod_mat_t x, const nmod_mat_t u, const nmod_mat_t b, int unit); int nmod_mat_solve(nmod_mat_t x, const nmod_mat_t a, const nmod_mat_t b); int nmod_mat_can_solve(nmod_mat_t x, const nmod_mat_t a, const nmod_mat_t b);
/* nmod_poly */
#define NMOD_POLY_INLINE static inline
typedef struct { nn_ptr coeffs; slong alloc, length; nmod_t mod; } nmod_poly_struct; typedef nmod_poly_struct nmod_poly_t[1];
static inline slong nmod_poly_degree(const nmod_poly_t p) { return p->length - 1; }
static inline slong nmod_poly_length(const nmod_poly_t p) { return p->length; }
static inline ulong nmod_poly_modulus(const nmod_poly_t p) { return p->mod.n; }
static inline ulong nmod_poly_get_coeff_ui(const nmod_poly_t p, slong j) { return (j >= p->length) ? 0 : p->coeffs[j]; }
static inline nn_ptr nmod_poly_lead(const nmod_poly_t p) { return p->length ? p->coeffs + (p->length - 1) : NULL; }
static inline void _nmod_poly_normalise(nmod_poly_t p) { while (p->length && p->coeffs[p->length - 1] == 0) p->length--; }
static inline void _nmod_poly_set_length(nmod_poly_t p, slong n) { p->length = n; }
static inline void nmod_poly_zero(nmod_poly_t p) { p->length = 0; }
static inline int nmod_poly_is_zero(const nmod_poly_t p) { return p->length == 0; }
static inline int nmod_poly_is_one(const nmod_poly_t p) { return p->mod.n == 1 || (p->length == 1 && p->coeffs[0] == 1); }
static inline int nmod_poly_is_constant(const nmod_poly_t p) { return p->length <= 1; }
static inline int nmod_poly_is_unit(const nmod_poly_t p) { return p->length == 1 && p->coeffs[0] != 0; }
static inline int nmod_poly_is_monic(const nmod_poly_t p) { return p->length && p->coeffs[p->length - 1] == 1; }
static inline void nmod_poly_swap(nmod_poly_t a, nmod_poly_t b) { nmod_poly_struct t = *a; *a = *b; *b = t; }
void nmod_poly_init(nmod_poly_t p, ulong n); void nmod_poly_init_mod(nmod_poly_t p, nmod_t m); void nmod_poly_init_preinv(nmod_poly_t p, ulong n, ulong ni); void nmod_poly_init2(nmod_poly_t p, ulong n, slong a); void nmod_poly_init2_preinv(nmod_poly_t p, ulong n, ulong ni, slong a); void nmod_poly_realloc(nmod_poly_t p, slong a); void nmod_poly_fit_length(nmod_poly_t p, slong a); void nmod_poly_clear(nmod_poly_t p); void nmod_poly_set(nmod_poly_t a, const nmod_poly_t b); void nmod_poly_set_trunc(nmod_poly_t a, const nmod_poly_t b, slong n); void nmod_poly_truncate(nmod_poly_t p, slong n); void nmod_poly_one(nmod_poly_t p); void nmod_poly_set_coeff_ui(nmod_poly_t p, slong j, ulong c); int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_neg(nmod_poly_t r, const nmod_poly_t a); void nmod_poly_add(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_sub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_mul(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_mullow(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n); void nmod_poly_scalar_mul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c); void nmod_poly_scalar_addmul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c); void nmod_poly_make_monic(nmod_poly_t r, const nmod_poly_t a); void nmod_poly_shift_left(nmod_poly_t r, const nmod_poly_t a, slong k); void nmod_poly_shift_right(nmod_poly_t r, const nmod_poly_t a, slong k); void nmod_poly_divrem(nmod_poly_t q, nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_div(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_rem(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); int nmod_poly_divides(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_gcd(nmod_poly_t g, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_xgcd(nmod_poly_t g, nmod_poly_t s, nmod_poly_t t, const nmod_poly_t a, const nmod_poly_t b); ulong nmod_poly_evaluate_nmod(const nmod_poly_t p, ulong x); void nmod_poly_reverse(nmod_poly_t r, const nmod_poly_t a, slong n); void _nmod_poly_reverse(nn_ptr o, nn_srcptr a, slong n, slong m); void nmod_poly_randtest(nmod_poly_t p, flint_rand_t st, slong n); void nmod_poly_randtest_not_zero(nmod_poly_t p, flint_rand_t st, slong n); void nmod_poly_randtest_monic(nmod_poly_t p, flint_rand_t st, slong n); int nmod_poly_print_pretty(const nmod_poly_t p, const char * x); int nmod_poly_print(const nmod_poly_t p); int nmod_poly_fprint_pretty(FILE * f, const nmod_poly_t p, const char * x);
#define nmod_poly_lead_coeff(p) ((p)->coeffs[(p)->length - 1])
typedef struct { ulong r; slong len; nmod_t mod; ulong function; nn_ptr pts; } nmod_geometric_progression_struct; typedef nmod_geometric_progression_struct nmod_geometric_progression_t[1];
void nmod_geometric_progression_init(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod); void _nmod_geometric_progression_init_function(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod, ulong f); void nmod_geometric_progression_clear(nmod_geometric_progression_t G); void _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, nn_srcptr poly, slong plen, const nmod_geometric_progression_t G, slong len, nmod_t mod); void _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nn_ptr poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len, nmod_t mod); void nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nmod_poly_t poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len);
/* nmod_poly_mat */
#define NMOD_POLY_MAT_INLINE static inline
typedef struct { nmod_poly_struct * entries; slong r, c, stride; ulong modulus; } nmod_poly_mat_struct; typedef nmod_poly_mat_struct nmod_poly_mat_t[1];
static inline nmod_poly_struct * nmod_poly_mat_entry(const nmod_poly_mat_t m, slong i, slong j) { return m->entries + i * m->stride + j; }
static inline slong nmod_poly_mat_nrows(const nmod_poly_mat_t m) { return m->r; }
static inline slong nmod_poly_mat_ncols(const nmod_poly_mat_t m) { return m->c; }
static inline ulong nmod_poly_mat_modulus(const nmod_poly_mat_t m) { return m->modulus; }
void fmpz_mat_randbits(fmpz_mat_t m, flint_rand_t st, flint_bitcnt_t bits); void nmod_mat_randtril(nmod_mat_t m, flint_rand_t st, int unit); void nmod_mat_randtriu(nmod_mat_t m, flint_rand_t st, int unit); slong nmod_poly_mat_degree(const nmod_poly_mat_t m);
static inline int nmod_poly_mat_is_empty(const nmod_poly_mat_t m) { return m->r == 0 || m->c == 0; }
static inline int nmod_poly_mat_is_square(const nmod_poly_mat_t m) { return m->r == m->c; }
void nmod_poly_mat_init(nmod_poly_mat_t m, slong r, slong c, ulong n); void nmod_poly_mat_init_set(nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_clear(nmod_poly_mat_t m); void nmod_poly_mat_set(nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_swap(nmod_poly_mat_t a, nmod_poly_mat_t b); void nmod_poly_mat_swap_entrywise(nmod_poly_mat_t a, nmod_poly_mat_t b); void nmod_poly_mat_zero(nmod_poly_mat_t m); void nmod_poly_mat_one(nmod_poly_mat_t m); int nmod_poly_mat_is_zero(const nmod_poly_mat_t m); int nmod_poly_mat_is_one(const nmod_poly_mat_t m); int nmod_poly_mat_equal(const nmod_poly_mat_t a, const nmod_poly_mat_t b); slong nmod_poly_mat_max_length(const nmod_poly_mat_t m); void nmod_poly_mat_window_init(nmod_poly_mat_t w, const nmod_poly_mat_t m, slong r1, slong c1, slong r2, slong c2); void nmod_poly_mat_window_clear(nmod_poly_mat_t w); void nmod_poly_mat_transpose(nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_add(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_sub(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_neg(nmod_poly_mat_t c, const nmod_poly_mat_t a); void nmod_poly_mat_mul(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_mul_classical(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_mul_KS(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_scalar_mul_nmod(nmod_poly_mat_t c, const nmod_poly_mat_t a, ulong s); void nmod_poly_mat_scalar_mul_nmod_poly(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_t s); void nmod_poly_mat_evaluate_nmod(nmod_mat_t b, const nmod_poly_mat_t a, ulong x); void nmod_poly_mat_truncate(nmod_poly_mat_t m, slong n); void nmod_poly_mat_set_trunc(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong n); void nmod_poly_mat_shift_left(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong k); void nmod_poly_mat_shift_right(nmod_poly_mat_t a, const nmod_poly_mat_t b, slong k); void nmod_poly_mat_get_coeff_mat(nmod_mat_t c, const nmod_poly_mat_t a, slong d); void nmod_poly_mat_set_coeff_mat(nmod_poly_mat_t a, const nmod_mat_t c, slong d); void nmod_poly_mat_set_nmod_mat(nmod_poly_mat_t a, const nmod_mat_t c); void nmod_poly_mat_det(nmod_poly_t d, const nmod_poly_mat_t a); slong nmod_poly_mat_rank(const nmod_poly_mat_t a); void nmod_poly_mat_randtest(nmod_poly_mat_t m, flint_rand_t st, slong n); void nmod_poly_mat_randtest_sparse(nmod_poly_mat_t m, flint_rand_t st, slong n, float d); void nmod_poly_mat_print(const nmod_poly_mat_t m, const char * x); void nmod_poly_mat_pow(nmod_poly_mat_t b, const nmod_poly_mat_t a, ulong e); void nmod_poly_mat_sqr(nmod_poly_mat_t b, const nmod_poly_mat_t a);
/* further FLINT functions, not used by flint-extras today, so that a change which calls them still builds */
static inline ulong n_mulmod_preinv(ulong a, ulong b, ulong n, ulong ni, ulong norm) { (void) ni; return (ulong)((((unsigned __int128) (a >> norm) * (b >> norm)) % (n >> norm)) << norm); }
static inline ulong n_ll_mod_preinv(ulong ah, ulong al, ulong n, ulong ni) { (void) ni; return (ulong)((((unsigned __int128)(ah % n)) << 64 | al) % n); }
static inline ulong n_lll_mod_preinv(ulong a2, ulong a1, ulong a0, ulong n, ulong ni) { return n_ll_mod_preinv(n_ll_mod_preinv(a2, a1, n, ni), a0, n, ni); }
static inline ulong n_powmod2_preinv(ulong a, slong e, ulong n, ulong ni) { (void) ni; return n_powmod2(a, e, n); }
static inline ulong n_powmod2_ui_preinv(ulong a, ulong e, ulong n, ulong ni) { (void) ni; ulong r = 1 % n; a %= n; for (; e; e >>= 1) { if (e & 1) r = n_mulmod2(r, a, n); a = n_mulmod2(a, a, n); } return r; }
static inline ulong n_powmod(ulong a, slong e, ulong n) { return n_powmod2(a, e, n); }
static inline ulong n_revbin(ulong x, ulong b) { ulong r = 0; for (ulong i = 0; i < b; i++) { r = (r << 1) | (x & 1); x >>= 1; } return r; }
static inline ulong n_min(ulong a, ulong b) { return a < b ? a : b; }
static inline ulong n_max(ulong a, ulong b) { return a > b ? a : b; }
static inline ulong n_mod_barrett(ulong x, ulong n, double d) { (void) d; return x % n; }
static inline double n_precompute_inverse(ulong n) { return 1.0 / (double) n; }
static inline ulong n_mod_precomp(ulong a, ulong n, double d) { (void) d; return a % n; }
static inline ulong n_mulmod_precomp(ulong a, ulong b, ulong n, double d) { (void) d; return n_mulmod2(a, b, n); }
static inline ulong n_lcm(ulong a, ulong b) { return a && b ? a / n_gcd(a, b) * b : 0; }
static inline int n_is_probabprime(ulong n) { return n_is_prime(n); }
static inline ulong nmod_mul_2(ulong a, nmod_t m) { return nmod_add(a, a, m); }
static inline ulong nmod_ui_add_ui(ulong a, ulong b, nmod_t m) { return nmod_add(a % m.n, b % m.n, m); }
static inline ulong nmod_2exp(ulong e, nmod_t m) { return nmod_pow_ui(2 % m.n, e, m); }
static inline int nmod_divides(ulong * q, ulong a, ulong b, nmod_t m) { if (a == 0) { *q = 0; return 1; } if (b == 0) { *q = 0; return 0; } *q = nmod_div(a, b, m); return 1; }
static inline ulong _nmod_vec_sum(nn_srcptr v, slong n, nmod_t m) { ulong s = 0; for (slong i = 0; i < n; i++) s = nmod_add(s, v[i], m); return s; }
static inline ulong nmod_fmma(ulong a, ulong b, ulong c, ulong d, nmod_t m) { return nmod_add(nmod_mul(a, b, m), nmod_mul(c, d, m), m); }
static inline int fmpz_is_even(const fmpz_t f) { return !(fmpz_fdiv_ui(f, 2)); }
static inline int fmpz_is_odd(const fmpz_t f) { return (int) fmpz_fdiv_ui(f, 2); }
static inline int fmpz_equal_ui(const fmpz_t f, ulong x) { return fmpz_cmp_ui(f, x) == 0; }
static inline int fmpz_is_pm1(const fmpz_t f) { return *f == 1 || *f == -1; }
static inline void fmpz_set_ui_smod(fmpz_t f, ulong x, ulong n) { if (x <= n / 2) fmpz_set_ui(f, x); else { fmpz_set_ui(f, n - x); fmpz_neg(f, f); } }
static inline void fmpz_sub_si(fmpz_t f, const fmpz_t g, slong x) { if (x < 0) fmpz_add_ui(f, g, - (ulong) x); else fmpz_sub_ui(f, g, x); }
static inline void fmpz_tdiv_q(fmpz_t f, const fmpz_t g, const fmpz_t h) { fmpz_t r; fmpz_init(r); fmpz_tdiv_qr(f, r, g, h); fmpz_clear(r); }
static inline void fmpz_fdiv_q_ui(fmpz_t f, const fmpz_t g, ulong h) { fmpz_t r; fmpz_init_set_ui(r, h); fmpz_fdiv_q(f, g, r); fmpz_clear(r); }
static inline void fmpz_cdiv_q(fmpz_t f, const fmpz_t g, const fmpz_t h) { fmpz_t r; fmpz_init(r); fmpz_neg(r, g); fmpz_fdiv_q(f, r, h); fmpz_neg(f, f); fmpz_clear(r); }
static inline void fmpz_smod(fmpz_t r, const fmpz_t a, const fmpz_t m) { _fmpz_smod(r, a, m, 1, r); }
static inline void fmpz_negmod(fmpz_t r, const fmpz_t a, const fmpz_t m) { if (fmpz_is_zero(a)) fmpz_zero(r); else fmpz_sub(r, m, a); }
static inline int fmpz_abs_fits_ui(const fmpz_t f) { return fmpz_size(f) <= 1; }
static inline int fmpz_fits_si(const fmpz_t f) { return fmpz_bits(f) < 64; }
static inline void _fmpz_vec_zero(fmpz * v, slong n) { for (slong i = 0; i < n; i++) fmpz_zero(v + i); }
static inline void _fmpz_vec_set(fmpz * r, const fmpz * v, slong n) { for (slong i = 0; i < n; i++) fmpz_set(r + i, v + i); }
static inline void _fmpz_vec_swap(fmpz * a, fmpz * b, slong n) { for (slong i = 0; i < n; i++) fmpz_swap(a + i, b + i); }
static inline void _fmpz_vec_add(fmpz * r, const fmpz * a, const fmpz * b, slong n) { for (slong i = 0; i < n; i++) fmpz_add(r + i, a + i, b + i); }
static inline void _fmpz_vec_prod(fmpz_t r, const fmpz * v, slong n) { fmpz_t t; fmpz_init_set_ui(t, 1); for (slong i = 0; i < n; i++) fmpz_mul(t, t, v + i); fmpz_swap(r, t); fmpz_clear(t); }
static inline void _fmpz_vec_sum(fmpz_t r, const fmpz * v, slong n) { fmpz_t t; fmpz_init(t); for (slong i = 0; i < n; i++) fmpz_add(t, t, v + i); fmpz_swap(r, t); fmpz_clear(t); }
static inline void _fmpz_vec_dot(fmpz_t r, const fmpz * a, const fmpz * b, slong n) { fmpz_t t; fmpz_init(t); for (slong i = 0; i < n; i++) fmpz_addmul(t, a + i, b + i); fmpz_swap(r, t); fmpz_clear(t); }
static inline int fmpz_mat_is_empty(const fmpz_mat_t m) { return m->r == 0 || m->c == 0; }
static inline void fmpz_mat_swap(fmpz_mat_t a, fmpz_mat_t b) { fmpz_mat_struct t = *a; *a = *b; *b = t; }
static inline void fmpz_mat_init_set(fmpz_mat_t a, const fmpz_mat_t b) { fmpz_mat_init(a, b->r, b->c); fmpz_mat_set(a, b); }
static inline void fmpz_mat_mul_classical(fmpz_mat_t c, const fmpz_mat_t a, const fmpz_mat_t b) { fmpz_mat_mul(c, a, b); }
static inline int fmpz_mat_is_zero(const fmpz_mat_t m) { for (slong i = 0; i < m->r; i++) for (slong j = 0; j < m->c; j++) if (*fmpz_mat_entry(m, i, j)) return 0; return 1; }
static inline void nmod_mat_addmul(nmod_mat_t d, const nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { nmod_mat_t t; nmod_mat_init(t, a->r, b->c, c->mod.n); nmod_mat_mul(t, a, b); nmod_mat_add(d, c, t); nmod_mat_clear(t); }
static inline void nmod_mat_submul(nmod_mat_t d, const nmod_mat_t c, const nmod_mat_t a, const nmod_mat_t b) { nmod_mat_t t; nmod_mat_init(t, a->r, b->c, c->mod.n); nmod_mat_mul(t, a, b); nmod_mat_sub(d, c, t); nmod_mat_clear(t); }
static inline ulong nmod_mat_trace(const nmod_mat_t m) { ulong s = 0; for (slong i = 0; i < m->r; i++) s = nmod_add(s, nmod_mat_entry(m, i, i), m->mod); return s; }
static inline void nmod_mat_invert_rows(nmod_mat_t m, slong * perm) { for (slong i = 0; i < m->r / 2; i++) nmod_mat_swap_rows(m, perm, i, m->r - 1 - i); }
static inline void nmod_mat_invert_cols(nmod_mat_t m, slong * perm) { for (slong i = 0; i < m->c / 2; i++) nmod_mat_swap_cols(m, perm, i, m->c - 1 - i); }
static inline void nmod_mat_pow(nmod_mat_t b, const nmod_mat_t a, ulong e) { nmod_mat_t x, t; nmod_mat_init_set(x, a); nmod_mat_init(t, a->r, a->c, a->mod.n); nmod_mat_one(t); while (e--) nmod_mat_mul(t, t, x); nmod_mat_set(b, t); nmod_mat_clear(x); nmod_mat_clear(t); }
static inline int nmod_poly_is_gen(const nmod_poly_t p) { return p->length == 2 && p->coeffs[0] == 0 && p->coeffs[1] == 1; }
static inline int nmod_poly_equal_ui(const nmod_poly_t p, ulong c) { return c % p->mod.n == 0 ? p->length == 0 : p->length == 1 && p->coeffs[0] == c % p->mod.n; }
static inline int nmod_poly_equal_nmod(const nmod_poly_t p, ulong c) { return nmod_poly_equal_ui(p, c); }
static inline int nmod_poly_equal_trunc(const nmod_poly_t a, const nmod_poly_t b, slong n) { for (slong i = 0; i < n; i++) if (nmod_poly_get_coeff_ui(a, i) != nmod_poly_get_coeff_ui(b, i)) return 0; return 1; }
static inline void nmod_poly_add_ui(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_set(r, a); nmod_poly_set_coeff_ui(r, 0, nmod_add(nmod_poly_get_coeff_ui(r, 0), c % r->mod.n, r->mod)); }
static inline void nmod_poly_sub_ui(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_set(r, a); nmod_poly_set_coeff_ui(r, 0, nmod_sub(nmod_poly_get_coeff_ui(r, 0), c % r->mod.n, r->mod)); }
static inline void nmod_poly_add_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_add(r, a, b); nmod_poly_truncate(r, n); }
static inline void nmod_poly_sub_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_sub(r, a, b); nmod_poly_truncate(r, n); }
static inline void nmod_poly_mul_classical(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_mul(r, a, b); }
static inline void nmod_poly_mul_KS(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, flint_bitcnt_t bits) { (void) bits; nmod_poly_mul(r, a, b); }
static inline void nmod_poly_pow(nmod_poly_t r, const nmod_poly_t a, ulong e) { nmod_poly_t x, t; nmod_poly_init_mod(x, a->mod); nmod_poly_init_mod(t, a->mod); nmod_poly_set(x, a); nmod_poly_one(t); while (e--) nmod_poly_mul(t, t, x); nmod_poly_swap(r, t); nmod_poly_clear(x); nmod_poly_clear(t); }
static inline void nmod_poly_evaluate_nmod_vec(nn_ptr ys, const nmod_poly_t p, nn_srcptr xs, slong n) { for (slong i = 0; i < n; i++) ys[i] = nmod_poly_evaluate_nmod(p, xs[i]); }
static inline void nmod_poly_mulhigh(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_mul(r, a, b); for (slong i = 0; i < n && i < r->length; i++) r->coeffs[i] = 0; _nmod_poly_normalise(r); }
static inline ulong _nmod_poly_evaluate_nmod(nn_srcptr p, slong n, ulong x, nmod_t m) { ulong s = 0; for (slong i = n - 1; i >= 0; i--) s = nmod_addmul(p[i], s, x, m); return s; }
void _nmod_poly_mul(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m); void _nmod_poly_mullow(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, slong n, nmod_t m); void _nmod_poly_add(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m); void _nmod_poly_sub(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t m); void nmod_poly_inv_series(nmod_poly_t r, const nmod_poly_t a, slong n); void nmod_poly_div_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n); void nmod_poly_derivative(nmod_poly_t r, const nmod_poly_t a); void nmod_poly_mulmod(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, const nmod_poly_t f); void nmod_poly_lcm(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b);
void nmod_poly_mat_concat_horizontal(nmod_poly_mat_t r, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_concat_vertical(nmod_poly_mat_t r, const nmod_poly_mat_t a, const nmod_poly_mat_t b); void nmod_poly_mat_trace(nmod_poly_t t, const nmod_poly_mat_t m); int nmod_poly_mat_equal_nmod_mat(const nmod_poly_mat_t a, const nmod_mat_t b); int nmod_poly_mat_is_zero_row(const nmod_poly_mat_t m, slong i);
static inline void nmod_poly_mat_mul_interpolate(nmod_poly_mat_t c, const nmod_poly_mat_t a, const nmod_poly_mat_t b) { nmod_poly_mat_mul(c, a, b); }
static inline void nmod_poly_mat_det_fflu(nmod_poly_t d, const nmod_poly_mat_t a) { nmod_poly_mat_det(d, a); }
static inline void nmod_poly_mat_det_interpolate(nmod_poly_t d, const nmod_poly_mat_t a) { nmod_poly_mat_det(d, a); }
/* crt_helpers: accumulate C[0..n-1] * y (the top limb of C being zero) and reduce below limit */
static inline void shim_big_mul(nn_ptr r, nn_srcptr C, ulong y, int n) { mpn_mul_1(r, C, n, y); }
static inline void shim_big_addmul(nn_ptr r, nn_srcptr C, ulong y, int n) { mpn_addmul_1(r, C, n, y); }
static inline void shim_big_red(nn_ptr r, nn_srcptr lim, int n) { while (mpn_cmp(r, lim, n) >= 0) mpn_sub_n(r, r, lim, n); }
#define SHIM_BIG(n, m) static inline void _big_mul_##n##_##m(nn_ptr r, nn_ptr t, nn_srcptr C, ulong y) { (void) t; shim_big_mul(r, C, y, n); } static inline void _big_addmul_##n##_##m(nn_ptr r, nn_ptr t, nn_srcptr C, ulong y) { (void) t; shim_big_addmul(r, C, y, n); } static inline void _reduce_big_sum_##n(nn_ptr r, nn_ptr t, nn_srcptr lim) { (void) t; shim_big_red(r, lim, n); }
SHIM_BIG(2, 1) SHIM_BIG(3, 2) SHIM_BIG(4, 3)
/* profiler */
typedef struct { slong cpu, wall; } timeit_struct; typedef timeit_struct timeit_t[1];
static inline void timeit_start(timeit_t t) { t->cpu = t->wall = 0; } static inline void timeit_stop(timeit_t t) { (void) t; }
/* rationals (num/den, reduced, den > 0) and polynomials over them (one rational per coefficient) */
typedef struct { fmpz num, den; } fmpq; typedef fmpq fmpq_t[1];
typedef struct { fmpq * coeffs; slong alloc, length; } fmpq_poly_struct; typedef fmpq_poly_struct fmpq_poly_t[1];
static inline void fmpq_init(fmpq_t x) { x->num = 0; x->den = 1; } static inline void fmpq_clear(fmpq_t x) { fmpz_clear(&x->num); fmpz_clear(&x->den); }
static inline fmpz * fmpq_numref(fmpq_t x) { return &x->num; } static inline fmpz * fmpq_denref(fmpq_t x) { return &x->den; } static inline void fmpq_swap(fmpq_t x, fmpq_t y) { fmpq t = *x; *x = *y; *y = t; }
void fmpq_set(fmpq_t x, const fmpq_t y); void fmpq_zero(fmpq_t x); void fmpq_one(fmpq_t x); int fmpq_is_zero(const fmpq_t x); int fmpq_equal(const fmpq_t x, const fmpq_t y); int fmpq_set_str(fmpq_t x, const char * s, int b); char * fmpq_get_str(char * s, int b, const fmpq_t x); void fmpq_set_fmpz(fmpq_t x, const fmpz_t a); void fmpq_set_si(fmpq_t x, slong p, ulong q); void fmpq_canonicalise(fmpq_t x);
void fmpq_add(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_sub(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_mul(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_div(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_addmul(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_submul(fmpq_t x, const fmpq_t y, const fmpq_t z); void fmpq_neg(fmpq_t x, const fmpq_t y); void fmpq_inv(fmpq_t x, const fmpq_t y); void fmpq_mul_fmpz(fmpq_t x, const fmpq_t y, const fmpz_t a);
fmpq * _fmpq_vec_init(slong n); void _fmpq_vec_clear(fmpq * v, slong n);
static inline void fmpq_poly_init(fmpq_poly_t p) { p->coeffs = NULL; p->alloc = p->length = 0; } void fmpq_poly_clear(fmpq_poly_t p); void fmpq_poly_set_coeff_fmpq(fmpq_poly_t p, slong i, const fmpq_t x); void fmpq_poly_get_coeff_fmpq(fmpq_t x, const fmpq_poly_t p, slong i); static inline void fmpq_poly_canonicalise(fmpq_poly_t p) { (void) p; } static inline slong fmpq_poly_length(const fmpq_poly_t p) { return p->length; } static inline slong fmpq_poly_degree(const fmpq_poly_t p) { return p->length - 1; } static inline void fmpq_poly_init2(fmpq_poly_t p, slong n) { (void) n; fmpq_poly_init(p); } static inline void fmpq_poly_fit_length(fmpq_poly_t p, slong n) { (void) p; (void) n; }
void fmpq_poly_evaluate_fmpz(fmpq_t r, const fmpq_poly_t p, const fmpz_t a); void fmpq_poly_evaluate_fmpq(fmpq_t r, const fmpq_poly_t p, const fmpq_t a);
slong nmod_poly_mat_nullspace(nmod_poly_mat_t x, const nmod_poly_mat_t a);
#ifdef __cplusplus
}
#endif
#endif
