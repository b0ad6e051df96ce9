/*
 * zkp.c - stand-in for libsecp256k1-zkp, written for the runtime monitors.
 *
 * The sandbox has only plain libsecp256k1, so the confidential-transaction half
 * of python-elementstx cannot run at all.  This file implements, from the
 * published algorithms, the subset of the secp256k1-zkp ABI that
 * elementstx/core/secp256k1.py binds.  It is linked against the plain
 * libsecp256k1.so, whose symbols a dlopen() handle to this object also exposes,
 * so that one library carries both.
 *
 * It is validated byte-for-byte against transactions blinded by Elements Core
 * (see vmon/selfcheck_native.py), i.e. it is an implementation of the same
 * functions, not a mock.  None of it is constant time.
 */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <secp256k1.h>

#include <unistd.h>
#define EXPORT __attribute__((visibility("default")))
typedef unsigned __int128 u128;
typedef uint64_t u64;

/* ------------------------------------------------------------ instrumentation */
/* Event counters, call-sequence hash, fault injection and delay injection for the
 * monitors.  All of it is inert until a vmon_* function arms it. */
#define FUNCS(X) X(generator_generate) X(generator_generate_blinded) X(generator_parse) X(generator_serialize) \
 X(pedersen_commitment_parse) X(pedersen_commitment_serialize) X(pedersen_commit) X(pedersen_blind_generator_blind_sum) \
 X(rangeproof_sign) X(rangeproof_info) X(rangeproof_rewind) X(rangeproof_verify) X(surjectionproof_initialize) \
 X(surjectionproof_destroy) X(surjectionproof_allocate_initialized) X(surjectionproof_generate) X(surjectionproof_verify) \
 X(surjectionproof_serialized_size) X(surjectionproof_serialize) X(surjectionproof_parse)
#define X(n) F_##n,
enum { FUNCS(X) NFUNCS };
#undef X
#define X(n) #n,
static const char *const fnames[] = { FUNCS(X) };
#undef X
static unsigned long ncalls[NFUNCS];
static volatile int fault_fn = -1;
static volatile long fault_countdown = 0, fault_hits = 0;
static volatile int fault_all = 0;
static volatile unsigned delay_max = 0;
static volatile unsigned long seqhash = 0;
static int vmon_enter(int f) {
    unsigned long n = __sync_add_and_fetch(&ncalls[f], 1);
    seqhash = seqhash * 1099511628211UL + (unsigned long)f + 1;
    if (delay_max) usleep((unsigned)((n * 2654435761UL) >> 7) % delay_max);
    if (fault_fn == f) { long c = __sync_sub_and_fetch(&fault_countdown, 1); if (c == 0 || (c < 0 && fault_all)) { __sync_add_and_fetch(&fault_hits, 1); return 1; } }
    return 0;
}
#define ENTER(n) do { if (vmon_enter(F_##n)) return 0; } while (0)
static int fidx(const char *name) { int i; for (i = 0; i < NFUNCS; i++) if (!strcmp(fnames[i], name)) return i; return -1; }
/* arm: the nth (1-based) future call of the function fails with return value 0; nth <= 0 disarms */
EXPORT int vmon_fault(const char *name, long nth) {
    int i = name ? fidx(name) : -1;
    fault_fn = -1; fault_hits = 0; fault_all = 0; if (nth <= 0 || i < 0) return i;
    fault_countdown = nth; fault_fn = i; return i;
}
/* the same, and every call after it */
EXPORT int vmon_fault_from(const char *name, long nth) { int i = vmon_fault(name, nth); fault_all = 1; return i; }
EXPORT long vmon_fault_hits(void) { return fault_hits; }
EXPORT long vmon_calls(const char *name) { int i = fidx(name); return i < 0 ? -1 : (long)ncalls[i]; }
EXPORT unsigned long vmon_seqhash(int reset) { unsigned long r = seqhash; if (reset) seqhash = 0; return r; }
EXPORT void vmon_delay(unsigned max_us) { delay_max = max_us; }

/* ------------------------------------------------------------------ sha256 */
typedef struct { uint32_t s[8]; unsigned char buf[64]; u64 bytes; } sha_t;
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define ROR(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void sha_block(uint32_t *s, const unsigned char *p) {
    uint32_t w[64], a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
    int i;
    for (i = 0; i < 16; i++)
        w[i] = ((uint32_t)p[4*i]<<24)|((uint32_t)p[4*i+1]<<16)|((uint32_t)p[4*i+2]<<8)|p[4*i+3];
    for (i = 16; i < 64; i++) {
        uint32_t s0 = ROR(w[i-15],7)^ROR(w[i-15],18)^(w[i-15]>>3);
        uint32_t s1 = ROR(w[i-2],17)^ROR(w[i-2],19)^(w[i-2]>>10);
        w[i] = w[i-16]+s0+w[i-7]+s1;
    }
    for (i = 0; i < 64; i++) {
        uint32_t S1 = ROR(e,6)^ROR(e,11)^ROR(e,25), ch = (e&f)^(~e&g);
        uint32_t t1 = h+S1+ch+K256[i]+w[i];
        uint32_t S0 = ROR(a,2)^ROR(a,13)^ROR(a,22), mj = (a&b)^(a&c)^(b&c);
        uint32_t t2 = S0+mj;
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e; s[5]+=f; s[6]+=g; s[7]+=h;
}
static void sha_init(sha_t *h) {
    static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(h->s, iv, sizeof(iv)); h->bytes = 0;
}
static void sha_write(sha_t *h, const unsigned char *d, size_t len) {
    size_t pos = (size_t)(h->bytes & 63);
    h->bytes += len;
    while (len) {
        size_t n = 64 - pos; if (n > len) n = len;
        memcpy(h->buf + pos, d, n); pos += n; d += n; len -= n;
        if (pos == 64) { sha_block(h->s, h->buf); pos = 0; }
    }
}
static void sha_fin(sha_t *h, unsigned char *out) {
    static const unsigned char pad[64] = {0x80};
    unsigned char l[8]; u64 bits = h->bytes << 3; int i;
    for (i = 0; i < 8; i++) l[i] = (unsigned char)(bits >> (56 - 8*i));
    sha_write(h, pad, 1 + ((119 - (h->bytes % 64)) % 64));
    sha_write(h, l, 8);
    for (i = 0; i < 8; i++) { out[4*i]=(unsigned char)(h->s[i]>>24); out[4*i+1]=(unsigned char)(h->s[i]>>16); out[4*i+2]=(unsigned char)(h->s[i]>>8); out[4*i+3]=(unsigned char)h->s[i]; }
}
static void hmac(unsigned char *out, const unsigned char *k, size_t kl,
                 const unsigned char *a, size_t al, const unsigned char *b, size_t bl,
                 const unsigned char *c, size_t cl) {
    unsigned char kk[64] = {0}, x[64]; sha_t h; int i; unsigned char t[32];
    memcpy(kk, k, kl);
    for (i = 0; i < 64; i++) x[i] = kk[i] ^ 0x36;
    sha_init(&h); sha_write(&h, x, 64); if (al) sha_write(&h, a, al); if (bl) sha_write(&h, b, bl); if (cl) sha_write(&h, c, cl); sha_fin(&h, t);
    for (i = 0; i < 64; i++) x[i] = kk[i] ^ 0x5c;
    sha_init(&h); sha_write(&h, x, 64); sha_write(&h, t, 32); sha_fin(&h, out);
}
typedef struct { unsigned char v[32], k[32]; int retry; } rfc_t;
static void rfc_init(rfc_t *r, const unsigned char *key, size_t kl) {
    static const unsigned char z[1] = {0}, o[1] = {1};
    memset(r->v, 1, 32); memset(r->k, 0, 32);
    unsigned char t[32];
    hmac(t, r->k, 32, r->v, 32, z, 1, key, kl); memcpy(r->k, t, 32);
    hmac(t, r->k, 32, r->v, 32, 0, 0, 0, 0); memcpy(r->v, t, 32);
    hmac(t, r->k, 32, r->v, 32, o, 1, key, kl); memcpy(r->k, t, 32);
    hmac(t, r->k, 32, r->v, 32, 0, 0, 0, 0); memcpy(r->v, t, 32);
    r->retry = 0;
}
static void rfc_gen(rfc_t *r, unsigned char *out) { /* always 32 bytes */
    static const unsigned char z[1] = {0};
    unsigned char t[32];
    if (r->retry) {
        hmac(t, r->k, 32, r->v, 32, z, 1, 0, 0); memcpy(r->k, t, 32);
        hmac(t, r->k, 32, r->v, 32, 0, 0, 0, 0); memcpy(r->v, t, 32);
    }
    hmac(t, r->k, 32, r->v, 32, 0, 0, 0, 0); memcpy(r->v, t, 32);
    memcpy(out, r->v, 32);
    r->retry = 1;
}

/* ------------------------------------------------- 256-bit modular integers */
typedef struct { u64 d[4]; } n256;
static const n256 FP = {{0xFFFFFFFEFFFFFC2FULL,0xFFFFFFFFFFFFFFFFULL,0xFFFFFFFFFFFFFFFFULL,0xFFFFFFFFFFFFFFFFULL}};
static const n256 FN = {{0xBFD25E8CD0364141ULL,0xBAAEDCE6AF48A03BULL,0xFFFFFFFFFFFFFFFEULL,0xFFFFFFFFFFFFFFFFULL}};
/* 2^256 - p and 2^256 - n */
static const n256 CP = {{0x1000003D1ULL,0,0,0}};
static const n256 CN = {{0x402DA1732FC9BEBFULL,0x4551231950B75FC4ULL,1,0}};

static int ncmp(const n256 *a, const n256 *b) {
    int i; for (i = 3; i >= 0; i--) { if (a->d[i] < b->d[i]) return -1; if (a->d[i] > b->d[i]) return 1; } return 0;
}
static int nzero(const n256 *a) { return !(a->d[0]|a->d[1]|a->d[2]|a->d[3]); }
static u64 nadd(n256 *r, const n256 *a, const n256 *b) {
    u128 c = 0; int i; for (i = 0; i < 4; i++) { c += (u128)a->d[i] + b->d[i]; r->d[i] = (u64)c; c >>= 64; } return (u64)c;
}
static u64 nsub(n256 *r, const n256 *a, const n256 *b) {
    u64 br = 0; int i;
    for (i = 0; i < 4; i++) { u128 t = (u128)a->d[i] - b->d[i] - br; r->d[i] = (u64)t; br = (u64)(t >> 64) & 1; } return br;
}
static void from_b32(n256 *r, const unsigned char *b) {
    int i, j; for (i = 0; i < 4; i++) { u64 v = 0; for (j = 0; j < 8; j++) v = (v << 8) | b[(3-i)*8 + j]; r->d[i] = v; }
}
static void to_b32(unsigned char *b, const n256 *a) {
    int i, j; for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) b[(3-i)*8 + j] = (unsigned char)(a->d[i] >> (56 - 8*j));
}
static void maddm(n256 *r, const n256 *a, const n256 *b, const n256 *m) {
    n256 t; u64 c = nadd(&t, a, b); if (c || ncmp(&t, m) >= 0) nsub(&t, &t, m); *r = t;
}
static void mnegm(n256 *r, const n256 *a, const n256 *m) { if (nzero(a)) { *r = *a; return; } nsub(r, m, a); }
static void msubm(n256 *r, const n256 *a, const n256 *b, const n256 *m) {
    n256 t; if (nsub(&t, a, b)) nadd(&t, &t, m); *r = t;
}
static void mul512(u64 *o, const n256 *a, const n256 *b) {
    int i, j; memset(o, 0, 64);
    for (i = 0; i < 4; i++) { u128 c = 0; for (j = 0; j < 4; j++) { c += (u128)a->d[i]*b->d[j] + o[i+j]; o[i+j] = (u64)c; c >>= 64; } o[i+4] = (u64)c; }
}
static void fmul(n256 *r, const n256 *a, const n256 *b) { /* mod p */
    u64 o[8]; u128 c = 0; n256 t; int i; u64 hi;
    mul512(o, a, b);
    for (i = 0; i < 4; i++) { c += (u128)o[i+4]*0x1000003D1ULL + o[i]; t.d[i] = (u64)c; c >>= 64; }
    hi = (u64)c;
    c = (u128)hi * 0x1000003D1ULL;
    for (i = 0; i < 4; i++) { c += t.d[i]; t.d[i] = (u64)c; c >>= 64; }
    if ((u64)c) { nadd(&t, &t, &CP); }
    if (ncmp(&t, &FP) >= 0) nsub(&t, &t, &FP);
    *r = t;
}
static void smul(n256 *r, const n256 *a, const n256 *b) { /* mod n */
    u64 o[8]; int k; n256 lo, hi;
    mul512(o, a, b);
    for (k = 0; k < 4; k++) {
        u64 p[8]; u128 c = 0; int i;
        memcpy(lo.d, o, 32); memcpy(hi.d, o + 4, 32);
        if (nzero(&hi)) break;
        mul512(p, &hi, &CN);
        for (i = 0; i < 8; i++) { c += (u128)p[i] + (i < 4 ? lo.d[i] : 0); o[i] = (u64)c; c >>= 64; }
    }
    memcpy(lo.d, o, 32);
    while (ncmp(&lo, &FN) >= 0) nsub(&lo, &lo, &FN);
    *r = lo;
}
static void npow(n256 *r, const n256 *a, const n256 *e, void (*mul)(n256*, const n256*, const n256*)) {
    n256 acc = {{1,0,0,0}}; int i;
    for (i = 255; i >= 0; i--) { mul(&acc, &acc, &acc); if ((e->d[i>>6] >> (i & 63)) & 1) mul(&acc, &acc, a); }
    *r = acc;
}
static void finv(n256 *r, const n256 *a) { n256 e = FP; e.d[0] -= 2; npow(r, a, &e, fmul); }
static void sinv(n256 *r, const n256 *a) { n256 e = FN; e.d[0] -= 2; npow(r, a, &e, smul); }
static int fsqrt(n256 *r, const n256 *a) { /* returns whether a is a square; r is the square root that is itself a square */
    /* (p+1)/4 */
    static const n256 e = {{0xFFFFFFFFBFFFFF0CULL,0xFFFFFFFFFFFFFFFFULL,0xFFFFFFFFFFFFFFFFULL,0x3FFFFFFFFFFFFFFFULL}};
    n256 t, s; npow(&t, a, &e, fmul); fmul(&s, &t, &t); *r = t; return ncmp(&s, a) == 0;
}
static int fquad(const n256 *a) { n256 t; return fsqrt(&t, a); }
static int sset(n256 *r, const unsigned char *b) { /* returns overflow */
    from_b32(r, b); if (ncmp(r, &FN) >= 0) { nsub(r, r, &FN); return 1; } return 0;
}
static int fset(n256 *r, const unsigned char *b) { from_b32(r, b); return ncmp(r, &FP) < 0; }
#define fadd(r,a,b) maddm(r,a,b,&FP)
#define fsub(r,a,b) msubm(r,a,b,&FP)
#define fneg(r,a) mnegm(r,a,&FP)
#define sadd(r,a,b) maddm(r,a,b,&FN)
#define sneg(r,a) mnegm(r,a,&FN)

/* ------------------------------------------------------------------- points */
typedef struct { n256 x, y; } ge;            /* affine, never infinity */
typedef struct { n256 x, y, z; int inf; } gj; /* jacobian */
static const ge G = {
 {{0x59F2815B16F81798ULL,0x029BFCDB2DCE28D9ULL,0x55A06295CE870B07ULL,0x79BE667EF9DCBBACULL}},
 {{0x9C47D08FFB10D4B8ULL,0xFD17B448A6855419ULL,0x5DA4FBFC0E1108A8ULL,0x483ADA7726A3C465ULL}}};
static const n256 ONE = {{1,0,0,0}};
static void gj_set(gj *r, const ge *a) { r->x = a->x; r->y = a->y; r->z = ONE; r->inf = 0; }
static void gj_inf(gj *r) { memset(r, 0, sizeof(*r)); r->inf = 1; }
static void gj_neg(gj *r, const gj *a) { *r = *a; if (!a->inf) fneg(&r->y, &a->y); }
static void gj_dbl(gj *r, const gj *a) {
    n256 A,B,C,D,E,F,t,x3,y3,z3;
    if (a->inf || nzero(&a->y)) { gj_inf(r); return; }
    fmul(&A,&a->x,&a->x); fmul(&B,&a->y,&a->y); fmul(&C,&B,&B);
    fadd(&t,&a->x,&B); fmul(&t,&t,&t); fsub(&t,&t,&A); fsub(&t,&t,&C); fadd(&D,&t,&t);
    fadd(&E,&A,&A); fadd(&E,&E,&A); fmul(&F,&E,&E);
    fsub(&x3,&F,&D); fsub(&x3,&x3,&D);
    fsub(&t,&D,&x3); fmul(&y3,&E,&t); fadd(&C,&C,&C); fadd(&C,&C,&C); fadd(&C,&C,&C); fsub(&y3,&y3,&C);
    fmul(&z3,&a->y,&a->z); fadd(&z3,&z3,&z3);
    r->x=x3; r->y=y3; r->z=z3; r->inf=0;
}
static void gj_add(gj *r, const gj *a, const gj *b) {
    n256 z1z1,z2z2,u1,u2,s1,s2,h,rr,h2,h3,v,t,x3,y3,z3;
    if (a->inf) { *r = *b; return; }
    if (b->inf) { *r = *a; return; }
    fmul(&z1z1,&a->z,&a->z); fmul(&z2z2,&b->z,&b->z);
    fmul(&u1,&a->x,&z2z2); fmul(&u2,&b->x,&z1z1);
    fmul(&s1,&a->y,&z2z2); fmul(&s1,&s1,&b->z);
    fmul(&s2,&b->y,&z1z1); fmul(&s2,&s2,&a->z);
    fsub(&h,&u2,&u1); fsub(&rr,&s2,&s1);
    if (nzero(&h)) { if (nzero(&rr)) { gj_dbl(r, a); } else { gj_inf(r); } return; }
    fmul(&h2,&h,&h); fmul(&h3,&h2,&h); fmul(&v,&u1,&h2);
    fmul(&x3,&rr,&rr); fsub(&x3,&x3,&h3); fsub(&x3,&x3,&v); fsub(&x3,&x3,&v);
    fsub(&t,&v,&x3); fmul(&y3,&rr,&t); fmul(&t,&s1,&h3); fsub(&y3,&y3,&t);
    fmul(&z3,&a->z,&b->z); fmul(&z3,&z3,&h);
    r->x=x3; r->y=y3; r->z=z3; r->inf=0;
}
static void gj_add_ge(gj *r, const gj *a, const ge *b) { gj t; gj_set(&t, b); gj_add(r, a, &t); }
static void ge_set(ge *r, const gj *a) { /* a must not be infinity */
    n256 zi, z2; finv(&zi,&a->z); fmul(&z2,&zi,&zi); fmul(&r->x,&a->x,&z2); fmul(&z2,&z2,&zi); fmul(&r->y,&a->y,&z2);
}
/* a*P + b*G, 4-bit interleaved windows */
static void ecmult2(gj *r, const gj *P, const n256 *a, const n256 *b) {
    static gj tg[16]; static int have_tg = 0;
    gj tp[16], acc; int i;
    if (!have_tg) { gj t[16]; gj_inf(&t[0]); gj_set(&t[1], &G); for (i = 2; i < 16; i++) gj_add_ge(&t[i], &t[i-1], &G); memcpy(tg, t, sizeof(t)); __sync_synchronize(); have_tg = 1; }
    gj_inf(&acc);
    if (P) { gj_inf(&tp[0]); tp[1] = *P; for (i = 2; i < 16; i++) gj_add(&tp[i], &tp[i-1], P); }
    for (i = 63; i >= 0; i--) {
        int k = (i & 15) * 4, wa = P ? (int)((a->d[i>>4] >> k) & 15) : 0, wb = b ? (int)((b->d[i>>4] >> k) & 15) : 0;
        gj_dbl(&acc,&acc); gj_dbl(&acc,&acc); gj_dbl(&acc,&acc); gj_dbl(&acc,&acc);
        if (wa) gj_add(&acc,&acc,&tp[wa]);
        if (wb) gj_add(&acc,&acc,&tg[wb]);
    }
    *r = acc;
}
static int set_xquad(ge *r, const n256 *x) { /* y is the root that is a square */
    n256 t; static const n256 seven = {{7,0,0,0}};
    r->x = *x; fmul(&t,x,x); fmul(&t,&t,x); fadd(&t,&t,&seven); return fsqrt(&r->y, &t);
}
static void ser_pub(unsigned char *o, const gj *a) { ge t; ge_set(&t, a); o[0] = 2 | (t.y.d[0] & 1); to_b32(o+1, &t.x); }
static void set_u64(n256 *r, u64 v) { r->d[0] = v; r->d[1] = r->d[2] = r->d[3] = 0; }
/* sec*G + value*gen */
static void ped_ecmult(gj *r, const n256 *sec, u64 value, const ge *gen) {
    gj g; n256 v; gj_set(&g, gen); set_u64(&v, value); ecmult2(r, &g, &v, sec);
}

/* ------------------------------------------------- illegal-argument reporting */
/* Real zkp reports a failed ARG_CHECK through the context's illegal callback and
 * returns 0.  The context belongs to the plain library, so its callback is reached
 * by making the plain library report an illegal argument on the same context. */
__attribute__((no_sanitize("undefined"))) static int illegal(const secp256k1_context *ctx) {
    size_t l = 0; unsigned char x[1];
    const secp256k1_pubkey *volatile null_key = NULL;
    (void)secp256k1_ec_pubkey_serialize(ctx, x, &l, null_key, SECP256K1_EC_COMPRESSED);
    return 0;
}
#define ARG_CHECK(c) do { if (!(c)) return illegal(ctx); } while (0)
/* Context use is checked too: real zkp dereferences ctx. */

/* --------------------------------------------------------------- generators */
typedef struct { unsigned char data[64]; } gen_t;
typedef struct { unsigned char data[64]; } commit_t;
static void gen_load(ge *r, const gen_t *g) { from_b32(&r->x, g->data); from_b32(&r->y, g->data + 32); }
static void gen_save(gen_t *g, const ge *r) { to_b32(g->data, &r->x); to_b32(g->data + 32, &r->y); }
static int on_curve(const ge *a) {
    n256 t, y2; static const n256 seven = {{7,0,0,0}};
    if (ncmp(&a->x,&FP) >= 0 || ncmp(&a->y,&FP) >= 0) return 0;
    fmul(&t,&a->x,&a->x); fmul(&t,&t,&a->x); fadd(&t,&t,&seven); fmul(&y2,&a->y,&a->y); return ncmp(&t,&y2) == 0;
}

static void svdw(ge *out, const n256 *t) {
    static const n256 c = {{0x7D8D27AE1CD5F852ULL,0xC61F6D15DA14ECD4ULL,0x233770C2A797962CULL,0x0A2D2BA93507F1DFULL}};
    static const n256 d = {{0x3EC693D68E6AFA40ULL,0x630FB68AED0A766AULL,0x919BB86153CBCB16ULL,0x851695D49A83F8EFULL}};
    static const n256 eight = {{8,0,0,0}};
    n256 w, wd, x1, x2, x3, tmp; ge r;
    /* w = c*t / (1 + b + t^2) */
    fmul(&wd,t,t); fadd(&wd,&wd,&eight);
    fmul(&w,&c,t); finv(&tmp,&wd); fmul(&w,&w,&tmp);
    fmul(&tmp,t,&w); fsub(&x1,&d,&tmp);                 /* x1 = d - t*w */
    fadd(&tmp,&x1,(n256*)&ONE); fneg(&x2,&tmp);         /* x2 = -1 - x1 */
    fmul(&tmp,&w,&w); finv(&tmp,&tmp); fadd(&x3,&tmp,(n256*)&ONE); /* x3 = 1 + 1/w^2 */
    if (!set_xquad(&r, &x1)) if (!set_xquad(&r, &x2)) set_xquad(&r, &x3);
    if (t->d[0] & 1) fneg(&r.y,&r.y);
    *out = r;
}
static int gen_make(gen_t *gen, const unsigned char *key32, const unsigned char *blind32) {
    static const char *pre[2] = {"1st generation: ", "2nd generation: "};
    gj acc; ge add, out; n256 t, b; int ret = 1, i; sha_t h; unsigned char b32[32];
    gj_inf(&acc);
    if (blind32) { ret = !sset(&b, blind32); ecmult2(&acc, NULL, NULL, &b); }
    for (i = 0; i < 2; i++) {
        sha_init(&h); sha_write(&h, (const unsigned char*)pre[i], 16); sha_write(&h, key32, 32); sha_fin(&h, b32);
        ret &= fset(&t, b32); if (ncmp(&t,&FP) >= 0) nsub(&t,&t,&FP);
        svdw(&add, &t); gj_add_ge(&acc, &acc, &add);
    }
    if (acc.inf) return 0;
    ge_set(&out, &acc); gen_save(gen, &out);
    return ret;
}
EXPORT int secp256k1_generator_generate(const secp256k1_context *ctx, gen_t *gen, const unsigned char *key32) {
    ENTER(generator_generate);
    ARG_CHECK(gen != NULL); ARG_CHECK(key32 != NULL);
    return gen_make(gen, key32, NULL);
}
EXPORT int secp256k1_generator_generate_blinded(const secp256k1_context *ctx, gen_t *gen, const unsigned char *key32, const unsigned char *blind32) {
    ENTER(generator_generate_blinded);
    ARG_CHECK(gen != NULL); ARG_CHECK(key32 != NULL); ARG_CHECK(blind32 != NULL);
    return gen_make(gen, key32, blind32);
}
EXPORT int secp256k1_generator_parse(const secp256k1_context *ctx, gen_t *gen, const unsigned char *in) {
    ENTER(generator_parse);
    n256 x; ge g;
    ARG_CHECK(gen != NULL); ARG_CHECK(in != NULL);
    unsigned char b[33]; memcpy(b, in, 33);
    if ((b[0] & 0xFE) != 10 || !fset(&x, b+1) || !set_xquad(&g, &x)) return 0;
    if (b[0] & 1) fneg(&g.y,&g.y);
    gen_save(gen, &g);
    return 1;
}
EXPORT int secp256k1_generator_serialize(const secp256k1_context *ctx, unsigned char *out, const gen_t *gen) {
    ENTER(generator_serialize);
    ge g; unsigned char b[33];
    ARG_CHECK(out != NULL); ARG_CHECK(gen != NULL);
    gen_load(&g, gen);
    b[0] = 11 ^ fquad(&g.y); to_b32(b+1, &g.x); memcpy(out, b, 33);
    return 1;
}

/* ----------------------------------------------------------------- pedersen */
static void com_load(ge *r, const commit_t *c) {
    n256 x; from_b32(&x, c->data+1); if (ncmp(&x,&FP) >= 0) nsub(&x,&x,&FP);
    set_xquad(r, &x); if (c->data[0] & 1) fneg(&r->y,&r->y);
}
EXPORT int secp256k1_pedersen_commitment_parse(const secp256k1_context *ctx, commit_t *commit, const unsigned char *in) {
    ENTER(pedersen_commitment_parse);
    n256 x; ge g;
    ARG_CHECK(commit != NULL); ARG_CHECK(in != NULL);
    unsigned char b[33]; memcpy(b, in, 33);
    if ((b[0] & 0xFE) != 8 || !fset(&x, b+1) || !set_xquad(&g, &x)) return 0;
    memset(commit, 0, 64); memcpy(commit->data, b, 33);
    return 1;
}
EXPORT int secp256k1_pedersen_commitment_serialize(const secp256k1_context *ctx, unsigned char *out, const commit_t *commit) {
    ENTER(pedersen_commitment_serialize);
    ARG_CHECK(out != NULL); ARG_CHECK(commit != NULL);
    memcpy(out, commit->data, 33);
    return 1;
}
EXPORT int secp256k1_pedersen_commit(const secp256k1_context *ctx, commit_t *commit, const unsigned char *blind, u64 value, const gen_t *gen) {
    ENTER(pedersen_commit);
    ge g, r; gj rj; n256 s;
    ARG_CHECK(commit != NULL); ARG_CHECK(blind != NULL); ARG_CHECK(gen != NULL);
    gen_load(&g, gen);
    if (sset(&s, blind)) return 0;
    ped_ecmult(&rj, &s, value, &g);
    if (rj.inf) return 0;
    ge_set(&r, &rj);
    memset(commit, 0, 64);
    commit->data[0] = 9 ^ fquad(&r.y); to_b32(commit->data+1, &r.x);
    return 1;
}
EXPORT int secp256k1_pedersen_blind_generator_blind_sum(const secp256k1_context *ctx, const u64 *value,
        const unsigned char *const *generator_blind, unsigned char *const *blinding_factor, size_t n_total, size_t n_inputs) {
    ENTER(pedersen_blind_generator_blind_sum);
    n256 sum = {{0,0,0,0}}, tmp = {{0,0,0,0}}; size_t i;
    ARG_CHECK(n_total == 0 || value != NULL);
    ARG_CHECK(n_total == 0 || generator_blind != NULL);
    ARG_CHECK(n_total == 0 || blinding_factor != NULL);
    ARG_CHECK(n_total > n_inputs);
    if (n_total == 0) return 1;
    for (i = 0; i < n_total; i++) {
        n256 add, v;
        if (sset(&tmp, generator_blind[i])) return 0;
        set_u64(&v, value[i]); smul(&add, &tmp, &v);
        if (sset(&tmp, blinding_factor[i])) return 0;
        sadd(&add,&add,&tmp);
        if (i < n_inputs) sneg(&add,&add);
        sadd(&sum,&sum,&add);
    }
    sneg(&sum,&sum); sadd(&tmp,&tmp,&sum);
    to_b32(blinding_factor[n_total-1], &tmp);
    return 1;
}

/* ---------------------------------------------------------------- borromean */
static void bhash(unsigned char *hash, const unsigned char *m, const unsigned char *e, size_t el, size_t ring, size_t epos) {
    sha_t h; unsigned char b[8]; int i;
    for (i = 0; i < 4; i++) { b[i] = (unsigned char)(ring >> (24-8*i)); b[4+i] = (unsigned char)(epos >> (24-8*i)); }
    sha_init(&h); sha_write(&h, e, el); sha_write(&h, m, 32); sha_write(&h, b, 8); sha_fin(&h, hash);
}
static int borr_verify(n256 *ev, const unsigned char *e0, const n256 *s, const gj *pubs, const size_t *rs, size_t nr, const unsigned char *m) {
    sha_t h0; size_t i, j, cnt = 0; unsigned char tmp[33], t32[32]; n256 ens; gj r; int of;
    sha_init(&h0);
    for (i = 0; i < nr; i++) {
        bhash(t32, m, e0, 32, i, 0); of = sset(&ens, t32);
        for (j = 0; j < rs[i]; j++) {
            if (of || nzero(&s[cnt]) || nzero(&ens) || pubs[cnt].inf) return 0;
            if (ev) ev[cnt] = ens;
            ecmult2(&r, &pubs[cnt], &ens, &s[cnt]);
            if (r.inf) return 0;
            ser_pub(tmp, &r);
            if (j != rs[i]-1) { bhash(t32, m, tmp, 33, i, j+1); of = sset(&ens, t32); }
            else sha_write(&h0, tmp, 33);
            cnt++;
        }
    }
    sha_write(&h0, m, 32); sha_fin(&h0, t32);
    return memcmp(e0, t32, 32) == 0;
}
static int borr_sign(unsigned char *e0, n256 *s, const gj *pubs, const n256 *k, const n256 *sec, const size_t *rs, const size_t *si, size_t nr, const unsigned char *m) {
    sha_t h0; size_t i, j, cnt = 0; unsigned char tmp[33], t32[32]; n256 ens; gj r;
    sha_init(&h0);
    for (i = 0; i < nr; i++) {
        ecmult2(&r, NULL, NULL, &k[i]); if (r.inf) return 0; ser_pub(tmp, &r);
        for (j = si[i]+1; j < rs[i]; j++) {
            bhash(t32, m, tmp, 33, i, j); if (sset(&ens, t32) || nzero(&ens)) return 0;
            ecmult2(&r, &pubs[cnt+j], &ens, &s[cnt+j]); if (r.inf) return 0; ser_pub(tmp, &r);
        }
        sha_write(&h0, tmp, 33);
        cnt += rs[i];
    }
    sha_write(&h0, m, 32); sha_fin(&h0, e0);
    cnt = 0;
    for (i = 0; i < nr; i++) {
        bhash(t32, m, e0, 32, i, 0); if (sset(&ens, t32) || nzero(&ens)) return 0;
        for (j = 0; j < si[i]; j++) {
            ecmult2(&r, &pubs[cnt+j], &ens, &s[cnt+j]); if (r.inf) return 0; ser_pub(tmp, &r);
            bhash(t32, m, tmp, 33, i, j+1); if (sset(&ens, t32) || nzero(&ens)) return 0;
        }
        smul(&s[cnt+j], &ens, &sec[i]); sneg(&s[cnt+j], &s[cnt+j]); sadd(&s[cnt+j], &s[cnt+j], &k[i]);
        if (nzero(&s[cnt+j])) return 0;
        cnt += rs[i];
    }
    return 1;
}

/* --------------------------------------------------------------- rangeproof */
static void rp_ser_point(unsigned char *o, const ge *p) { o[0] = !fquad(&p->y); to_b32(o+1, &p->x); }
static void pub_expand(gj *pubs, int exp, const size_t *rs, size_t rings, const ge *gen) {
    gj base, t; size_t i, j, np = 0;
    if (exp < 0) exp = 0;
    gj_set(&base, gen); gj_neg(&base, &base);
    while (exp--) { gj_dbl(&t,&base); gj u; gj_dbl(&u,&t); gj_dbl(&u,&u); gj_add(&base,&u,&t); }
    for (i = 0; i < rings; i++) {
        for (j = 1; j < rs[i]; j++) gj_add(&pubs[np+j], &pubs[np+j-1], &base);
        if (i < rings - 1) { gj_dbl(&base,&base); gj_dbl(&base,&base); }
        np += rs[i];
    }
}
static int genrand(n256 *sec, n256 *s, unsigned char *msg, const size_t *rs, size_t rings, const unsigned char *nonce,
                   const ge *commit, const unsigned char *proof, size_t len, const ge *gen) {
    unsigned char tmp[32], seed[32+33+33+10]; rfc_t rng; n256 acc = {{0,0,0,0}}; int of, ret = 1, b; size_t i, j, np = 0;
    memcpy(seed, nonce, 32); rp_ser_point(seed+32, commit); rp_ser_point(seed+65, gen); memcpy(seed+98, proof, len);
    rfc_init(&rng, seed, 98 + len);
    for (i = 0; i < rings; i++) {
        if (i < rings - 1) {
            rfc_gen(&rng, tmp);
            do { rfc_gen(&rng, tmp); of = sset(&sec[i], tmp); } while (of || nzero(&sec[i]));
            sadd(&acc,&acc,&sec[i]);
        } else { sneg(&acc,&acc); sec[i] = acc; }
        for (j = 0; j < rs[i]; j++) {
            rfc_gen(&rng, tmp);
            if (msg) for (b = 0; b < 32; b++) { tmp[b] ^= msg[(i*4+j)*32+b]; msg[(i*4+j)*32+b] = tmp[b]; }
            of = sset(&s[np], tmp); ret &= !(of || nzero(&s[np])); np++;
        }
    }
    return ret;
}
static int clz64(u64 v) { return v ? __builtin_clzll(v) : 64; }
static int proveparams(u64 *v, size_t *rings, size_t *rs, size_t *npub, size_t *si, u64 *min_value, int *mantissa, u64 *scale, int *exp, int *min_bits, u64 value) {
    size_t i;
    *rings = 1; rs[0] = 1; si[0] = 0; *scale = 1; *mantissa = 0; *npub = 0;
    if (*min_value == UINT64_MAX) *exp = -1;
    if (*exp >= 0) {
        int max_bits; u64 v2;
        if ((*min_value && value > INT64_MAX) || (value && *min_value >= INT64_MAX)) return 0;
        max_bits = *min_value ? clz64(*min_value) : 64;
        if (*min_bits > max_bits) *min_bits = max_bits;
        if (*min_bits > 61 || value > INT64_MAX) *exp = 0;
        *v = value - *min_value;
        v2 = *min_bits ? (UINT64_MAX >> (64 - *min_bits)) : 0;
        for (i = 0; (int)i < *exp && (v2 <= UINT64_MAX / 10); i++) { *v /= 10; v2 *= 10; }
        *exp = (int)i; v2 = *v;
        for (i = 0; (int)i < *exp; i++) { v2 *= 10; *scale *= 10; }
        *min_value = value - v2;
        *mantissa = *v ? 64 - clz64(*v) : 1;
        if (*min_bits > *mantissa) *mantissa = *min_bits;
        *rings = (size_t)(*mantissa + 1) >> 1;
        for (i = 0; i < *rings; i++) {
            rs[i] = ((i < *rings - 1) | (!(*mantissa & 1))) ? 4 : 2;
            *npub += rs[i]; si[i] = (*v >> (i*2)) & 3;
        }
    } else { *exp = 0; *min_value = value; *v = 0; *npub = 2; }
    return 1;
}
EXPORT int secp256k1_rangeproof_sign(const secp256k1_context *ctx, unsigned char *proof, size_t *plen, u64 min_value,
        const commit_t *commit, const unsigned char *blind, const unsigned char *nonce, int exp, int min_bits, u64 value,
        const unsigned char *message, size_t msg_len, const unsigned char *extra, size_t extra_len, const gen_t *gen) {
    ENTER(rangeproof_sign);
    gj pubs[128]; n256 s[128], sec[32], k[32], st; sha_t hm; unsigned char prep[4096], tmp[33], *signs;
    u64 v, scale; int mantissa, of; size_t rings, rs[32], si[32], len = 0, i, npub; ge cp, gp;
    ARG_CHECK(proof != NULL); ARG_CHECK(plen != NULL); ARG_CHECK(commit != NULL); ARG_CHECK(blind != NULL);
    ARG_CHECK(nonce != NULL); ARG_CHECK(message != NULL || msg_len == 0); ARG_CHECK(extra != NULL || extra_len == 0); ARG_CHECK(gen != NULL);
    com_load(&cp, commit); gen_load(&gp, gen);
    if (*plen < 65 || min_value > value || min_bits > 64 || min_bits < 0 || exp < -1 || exp > 18) return 0;
    if (!proveparams(&v, &rings, rs, &npub, si, &min_value, &mantissa, &scale, &exp, &min_bits, value)) return 0;
    proof[len++] = (unsigned char)((rs[0] > 1 ? (64 | exp) : 0) | (min_value ? 32 : 0));
    if (rs[0] > 1) proof[len++] = (unsigned char)(mantissa - 1);
    if (min_value) { for (i = 0; i < 8; i++) proof[len+i] = (unsigned char)(min_value >> ((7-i)*8)); len += 8; }
    if (msg_len > 0 && msg_len > 128 * (rings - 1)) return 0;
    if (*plen - len < 32 * (npub + rings - 1) + 32 + ((rings + 6) >> 3)) return 0;
    sha_init(&hm); rp_ser_point(tmp, &cp); sha_write(&hm, tmp, 33); rp_ser_point(tmp, &gp); sha_write(&hm, tmp, 33); sha_write(&hm, proof, len);
    memset(prep, 0, 4096);
    if (message) memcpy(prep, message, msg_len);
    if (rs[rings-1] > 1) {
        size_t idx = rs[rings-1] - 1; idx -= (si[rings-1] == idx); idx = ((rings-1)*4 + idx)*32;
        for (i = 0; i < 8; i++) { prep[8+i+idx] = prep[16+i+idx] = prep[24+i+idx] = (unsigned char)(v >> (56 - i*8)); prep[i+idx] = 0; }
        prep[idx] = 128;
    }
    if (!genrand(sec, s, prep, rs, rings, nonce, &cp, proof, len, &gp)) return 0;
    for (i = 0; i < rings; i++) { k[i] = s[i*4+si[i]]; memset(&s[i*4+si[i]], 0, sizeof(n256)); }
    of = sset(&st, blind); sadd(&sec[rings-1], &sec[rings-1], &st);
    if (of || nzero(&sec[rings-1])) return 0;
    signs = &proof[len];
    for (i = 0; i < (rings + 6) >> 3; i++) { signs[i] = 0; len++; }
    npub = 0;
    for (i = 0; i < rings; i++) {
        ped_ecmult(&pubs[npub], &sec[i], ((u64)si[i] * scale) << (i*2), &gp);
        if (pubs[npub].inf) return 0;
        if (i < rings - 1) {
            ge c; ge_set(&c, &pubs[npub]); rp_ser_point(tmp, &c); sha_write(&hm, tmp, 33);
            signs[i>>3] |= (unsigned char)(tmp[0] << (i & 7)); memcpy(&proof[len], tmp+1, 32); len += 32;
        }
        npub += rs[i];
    }
    pub_expand(pubs, exp, rs, rings, &gp);
    if (extra) sha_write(&hm, extra, extra_len);
    sha_fin(&hm, tmp);
    if (!borr_sign(&proof[len], s, pubs, k, sec, rs, si, rings, tmp)) return 0;
    len += 32;
    for (i = 0; i < npub; i++) { to_b32(&proof[len], &s[i]); len += 32; }
    *plen = len;
    return 1;
}
static void recover_x(n256 *x, const n256 *k, const n256 *e, const n256 *s) {
    n256 t; sneg(x, s); sadd(x, x, k); sinv(&t, e); smul(x, x, &t);
}
static void recover_k(n256 *k, const n256 *x, const n256 *e, const n256 *s) { n256 t; smul(&t, x, e); sadd(k, s, &t); }
static int getheader(size_t *off, int *exp, int *mantissa, u64 *scale, u64 *minv, u64 *maxv, const unsigned char *proof, size_t plen) {
    int i, nz, hm;
    if (plen < 65 || (proof[*off] & 128)) return 0;
    nz = proof[*off] & 64; hm = proof[*off] & 32; *exp = -1; *mantissa = 0;
    if (nz) {
        *exp = proof[*off] & 31; *off += 1; if (*exp > 18) return 0;
        *mantissa = proof[*off] + 1; if (*mantissa > 64) return 0;
        *maxv = UINT64_MAX >> (64 - *mantissa);
    } else *maxv = 0;
    *off += 1; *scale = 1;
    for (i = 0; i < *exp; i++) { if (*maxv > UINT64_MAX / 10) return 0; *maxv *= 10; *scale *= 10; }
    *minv = 0;
    if (hm) { if (plen - *off < 8) return 0; for (i = 0; i < 8; i++) *minv = (*minv << 8) | proof[*off+i]; *off += 8; }
    if (*maxv > UINT64_MAX - *minv) return 0;
    *maxv += *minv;
    return 1;
}
EXPORT int secp256k1_rangeproof_info(const secp256k1_context *ctx, int *exp, int *mantissa, u64 *minv, u64 *maxv, const unsigned char *proof, size_t plen) {
    ENTER(rangeproof_info);
    size_t off = 0; u64 scale = 1;
    ARG_CHECK(exp != NULL); ARG_CHECK(mantissa != NULL); ARG_CHECK(minv != NULL); ARG_CHECK(maxv != NULL); ARG_CHECK(proof != NULL);
    return getheader(&off, exp, mantissa, &scale, minv, maxv, proof, plen);
}
static int rewind_inner(n256 *blind, u64 *v, unsigned char *m, size_t *mlen, const n256 *ev, const n256 *s, const size_t *rs, size_t rings,
        const unsigned char *nonce, const ge *commit, const unsigned char *proof, size_t len, const ge *gen) {
    n256 so[128], sec[32], st; unsigned char prep[4096], tmp[32]; u64 value = UINT64_MAX; size_t off, i, j, skip1, skip2, npub; int b;
    memset(prep, 0, 4096);
    genrand(sec, so, prep, rs, rings, nonce, commit, proof, len, gen);
    *v = UINT64_MAX; memset(blind, 0, sizeof(*blind));
    if (rings == 1 && rs[0] == 1) { recover_x(blind, &so[0], &ev[0], &s[0]); *v = 0; if (mlen) *mlen = 0; return 1; }
    npub = (rings - 1) << 2;
    for (j = 0; j < 2; j++) {
        size_t idx = npub + rs[rings-1] - 1 - j;
        to_b32(tmp, &s[idx]); for (b = 0; b < 32; b++) tmp[b] ^= prep[idx*32+b];
        if ((tmp[0] & 128) && memcmp(&tmp[16],&tmp[24],8) == 0 && memcmp(&tmp[8],&tmp[16],8) == 0) {
            value = 0; for (i = 0; i < 8; i++) value = (value << 8) + tmp[24+i];
            *v = value; memcpy(&prep[idx*32], tmp, 32); break;
        }
    }
    if (j > 1) { if (mlen) *mlen = 0; return 0; }
    skip1 = rs[rings-1] - 1 - j; skip2 = (value >> ((rings-1) << 1)) & 3;
    if (skip1 == skip2) { if (mlen) *mlen = 0; return 0; }
    skip1 += (rings-1) << 2; skip2 += (rings-1) << 2;
    if (skip2 >= npub + rs[rings-1]) { if (mlen) *mlen = 0; return 0; }
    recover_x(&st, &so[skip2], &ev[skip2], &s[skip2]);
    sneg(&sec[rings-1], &sec[rings-1]); sadd(blind, &st, &sec[rings-1]);
    if (!m || !mlen || *mlen == 0) { if (mlen) *mlen = 0; return 1; }
    off = 0; npub = 0;
    for (i = 0; i < rings; i++) {
        size_t idx = (value >> (i << 1)) & 3;
        for (j = 0; j < rs[i]; j++) {
            if (npub == skip1 || npub == skip2) { npub++; continue; }
            if (idx == j) recover_k(&st, &sec[i], &ev[npub], &s[npub]); else st = s[npub];
            to_b32(tmp, &st); for (b = 0; b < 32; b++) tmp[b] ^= prep[npub*32+b];
            for (b = 0; b < 32 && off < *mlen; b++) m[off++] = tmp[b];
            npub++;
        }
    }
    *mlen = off;
    return 1;
}
static int rp_verify(unsigned char *blindout, u64 *vout, unsigned char *mout, size_t *outlen, const unsigned char *nonce,
        u64 *minv, u64 *maxv, const ge *commit, const unsigned char *proof, size_t plen, const unsigned char *extra, size_t extra_len, const ge *gen) {
    gj accj, pubs[128]; ge c; n256 s[128], ev[128]; sha_t hm; size_t rs[32], i, npub, off = 0, ph, rings; int exp, mantissa, ret;
    u64 scale; unsigned char signs[31], m[33]; const unsigned char *e0;
    if (!getheader(&off, &exp, &mantissa, &scale, minv, maxv, proof, plen)) return 0;
    ph = off; rings = 1; rs[0] = 1; npub = 1;
    if (mantissa != 0) {
        rings = (size_t)mantissa >> 1; for (i = 0; i < rings; i++) rs[i] = 4;
        npub = ((size_t)mantissa >> 1) << 2;
        if (mantissa & 1) { rs[rings] = 2; npub += 2; rings++; }
    }
    if (plen - off < 32 * (npub + rings - 1) + 32 + ((rings + 6) >> 3)) return 0;
    sha_init(&hm); rp_ser_point(m, commit); sha_write(&hm, m, 33); rp_ser_point(m, gen); sha_write(&hm, m, 33); sha_write(&hm, proof, off);
    for (i = 0; i < rings - 1; i++) signs[i] = (proof[off + (i >> 3)] & (1 << (i & 7))) != 0;
    off += (rings + 6) >> 3;
    if ((rings - 1) & 7) if ((proof[off-1] >> ((rings - 1) & 7)) != 0) return 0;
    npub = 0; gj_inf(&accj);
    if (*minv) { gj g; n256 mv; gj_set(&g, gen); set_u64(&mv, *minv); ecmult2(&accj, &g, &mv, NULL); }
    for (i = 0; i < rings - 1; i++) {
        n256 x; if (!fset(&x, &proof[off]) || !set_xquad(&c, &x)) return 0;
        if (signs[i]) fneg(&c.y,&c.y);
        sha_write(&hm, &signs[i], 1); sha_write(&hm, &proof[off], 32);
        gj_set(&pubs[npub], &c); gj_add_ge(&accj,&accj,&c); off += 32; npub += rs[i];
    }
    gj_neg(&accj,&accj); gj_add_ge(&pubs[npub], &accj, commit);
    if (pubs[npub].inf) return 0;
    pub_expand(pubs, exp, rs, rings, gen);
    npub += rs[rings-1];
    e0 = &proof[off]; off += 32;
    for (i = 0; i < npub; i++) { if (sset(&s[i], &proof[off])) return 0; off += 32; }
    if (off != plen) return 0;
    if (extra) sha_write(&hm, extra, extra_len);
    sha_fin(&hm, m);
    ret = borr_verify(nonce ? ev : NULL, e0, s, pubs, rs, rings, m);
    if (ret && nonce) {
        n256 blind; u64 vv;
        if (!rewind_inner(&blind, &vv, mout, outlen, ev, s, rs, rings, nonce, commit, proof, ph, gen)) return 0;
        vv = vv * scale + *minv;
        ped_ecmult(&accj, &blind, vv, gen);
        if (accj.inf) return 0;
        gj_neg(&accj,&accj); gj_add_ge(&accj,&accj,commit);
        if (!accj.inf) return 0;
        if (blindout) to_b32(blindout, &blind);
        if (vout) *vout = vv;
    }
    return ret;
}
EXPORT int secp256k1_rangeproof_rewind(const secp256k1_context *ctx, unsigned char *blind_out, u64 *value_out, unsigned char *message_out,
        size_t *outlen, const unsigned char *nonce, u64 *minv, u64 *maxv, const commit_t *commit, const unsigned char *proof, size_t plen,
        const unsigned char *extra, size_t extra_len, const gen_t *gen) {
    ENTER(rangeproof_rewind);
    ge cp, gp;
    ARG_CHECK(commit != NULL); ARG_CHECK(proof != NULL); ARG_CHECK(minv != NULL); ARG_CHECK(maxv != NULL);
    ARG_CHECK(message_out != NULL || outlen == NULL); ARG_CHECK(nonce != NULL); ARG_CHECK(extra != NULL || extra_len == 0); ARG_CHECK(gen != NULL);
    com_load(&cp, commit); gen_load(&gp, gen);
    if (!on_curve(&gp)) return 0; /* real zkp: undefined garbage; a failed proof either way */
    return rp_verify(blind_out, value_out, message_out, outlen, nonce, minv, maxv, &cp, proof, plen, extra, extra_len, &gp);
}
EXPORT int secp256k1_rangeproof_verify(const secp256k1_context *ctx, u64 *minv, u64 *maxv, const commit_t *commit, const unsigned char *proof,
        size_t plen, const unsigned char *extra, size_t extra_len, const gen_t *gen) {
    ENTER(rangeproof_verify);
    ge cp, gp;
    ARG_CHECK(commit != NULL); ARG_CHECK(proof != NULL); ARG_CHECK(minv != NULL); ARG_CHECK(maxv != NULL);
    ARG_CHECK(extra != NULL || extra_len == 0); ARG_CHECK(gen != NULL);
    com_load(&cp, commit); gen_load(&gp, gen);
    if (!on_curve(&gp)) return 0;
    return rp_verify(NULL, NULL, NULL, NULL, NULL, minv, maxv, &cp, proof, plen, extra, extra_len, &gp);
}

/* ---------------------------------------------------------- surjection proof */
#define MAXIN 256
typedef struct { size_t n_inputs; unsigned char used[MAXIN/8]; unsigned char data[32*(1+MAXIN)]; } sproof;
static long live_proofs = 0, total_proofs = 0;
/* test-only accounting, used by the resource monitor */
EXPORT long vmon_live_surjectionproofs(void) { return live_proofs; }
EXPORT long vmon_total_surjectionproofs(void) { return total_proofs; }

typedef struct { unsigned char st[32]; size_t i; } csprng;
static size_t cs_next(csprng *c, size_t rmax) {
    const size_t inc = rmax > 256 ? 2 : 1, range = rmax > 256 ? 0xffff : 0xff, limit = ((range + 1) / rmax) * rmax;
    for (;;) {
        size_t val;
        if (c->i + inc >= 32) { sha_t h; unsigned char t[32]; sha_init(&h); sha_write(&h, c->st, 32); sha_fin(&h, t); memcpy(c->st, t, 32); c->i = 0; }
        val = c->st[c->i]; if (inc > 1) val = (val << 8) + c->st[c->i+1];
        c->i += inc;
        if (val < limit) return val % rmax;
    }
}
static int used(const sproof *p, size_t i) { return (p->used[i/8] >> (i%8)) & 1; }
static size_t n_used(const sproof *p) { size_t i, n = 0; for (i = 0; i < p->n_inputs && i < MAXIN; i++) n += (size_t)used(p, i); return n; }
EXPORT int secp256k1_surjectionproof_initialize(const secp256k1_context *ctx, sproof *proof, size_t *input_index, const unsigned char *tags,
        const size_t n_in, const size_t n_use, const unsigned char *otag, const size_t max_it, const unsigned char *seed) {
    ENTER(surjectionproof_initialize);
    csprng c; size_t it = 0;
    ARG_CHECK(proof != NULL); ARG_CHECK(input_index != NULL); ARG_CHECK(tags != NULL); ARG_CHECK(otag != NULL); ARG_CHECK(seed != NULL);
    ARG_CHECK(n_in <= MAXIN); ARG_CHECK(n_use <= MAXIN); ARG_CHECK(n_use <= n_in);
    memcpy(c.st, seed, 32); c.i = 0;
    memset(proof->data, 0, sizeof(proof->data)); proof->n_inputs = n_in;
    for (;;) {
        int has = 0; size_t i;
        memset(proof->used, 0, sizeof(proof->used));
        for (i = 0; i < n_use; i++) for (;;) {
            size_t nx = cs_next(&c, n_in);
            if (memcmp(tags + 32*nx, otag, 32) == 0) { *input_index = nx; has = 1; }
            if (!used(proof, nx)) { proof->used[nx/8] |= (unsigned char)(1 << (nx%8)); break; }
        }
        it++;
        if (has) return (int)it;
        if (it >= max_it) { proof->n_inputs = 0; return 0; }
    }
}
EXPORT void secp256k1_surjectionproof_destroy(sproof *p) {
    vmon_enter(F_surjectionproof_destroy);
    if (p) { __sync_fetch_and_sub(&live_proofs, 1); free(p); }
}
EXPORT int secp256k1_surjectionproof_allocate_initialized(const secp256k1_context *ctx, sproof **out, size_t *input_index, const unsigned char *tags,
        const size_t n_in, const size_t n_use, const unsigned char *otag, const size_t max_it, const unsigned char *seed) {
    ENTER(surjectionproof_allocate_initialized);
    int ret;
    ARG_CHECK(out != NULL); *out = 0;
    *out = malloc(sizeof(sproof));
    if (!*out) return 0;
    __sync_fetch_and_add(&live_proofs, 1); __sync_fetch_and_add(&total_proofs, 1);
    ret = secp256k1_surjectionproof_initialize(ctx, *out, input_index, tags, n_in, n_use, otag, max_it, seed);
    if (!ret) { secp256k1_surjectionproof_destroy(*out); *out = 0; }
    return ret;
}
static int sj_pubkeys(gj *pk, size_t n_pk, const gen_t *in, size_t n_in, const sproof *p, const gen_t *outt, size_t input_index, size_t *ring) {
    size_t i, j = 0; ge o; gen_load(&o, outt);
    for (i = 0; i < n_in; i++) if (used(p, i)) {
        ge t; gj a; gen_load(&t, &in[i]); fneg(&t.y,&t.y); gj_set(&a, &t);
        if (ring && input_index == i) *ring = j;
        if (j >= n_pk) return 0;
        gj_add_ge(&pk[j], &a, &o); j++;
    }
    return j == n_pk;
}
static void sj_msg(unsigned char *m, const gen_t *in, size_t n_in, const gen_t *o) {
    sha_t h; size_t i; unsigned char b[33]; sha_init(&h);
    for (i = 0; i < n_in; i++) { b[0] = 2 | (in[i].data[63] & 1); memcpy(b+1, in[i].data, 32); sha_write(&h, b, 33); }
    b[0] = 2 | (o->data[63] & 1); memcpy(b+1, o->data, 32); sha_write(&h, b, 33); sha_fin(&h, m);
}
EXPORT int secp256k1_surjectionproof_generate(const secp256k1_context *ctx, sproof *p, const gen_t *in, size_t n_in, const gen_t *outt,
        size_t input_index, const unsigned char *ibk, const unsigned char *obk) {
    ENTER(surjectionproof_generate);
    n256 bk, t, nonce; n256 *s; gj *pk; size_t n, rs[1], idx[1] = {0}, i; unsigned char m[32], sec[36]; int ret = 0;
    ARG_CHECK(p != NULL); ARG_CHECK(in != NULL); ARG_CHECK(outt != NULL); ARG_CHECK(ibk != NULL); ARG_CHECK(obk != NULL);
    if (sset(&t, ibk)) return 0;
    if (sset(&bk, obk)) return 0;
    if (ncmp(&t,&bk) == 0 && !nzero(&bk)) return 0;
    sneg(&t,&t); sadd(&bk,&bk,&t);
    n = n_used(p);
    if (n > p->n_inputs || p->n_inputs != n_in || n == 0) return 0;
    s = calloc(n, sizeof(*s)); pk = calloc(n, sizeof(*pk));
    if (!sj_pubkeys(pk, n, in, n_in, p, outt, input_index, &idx[0])) goto out;
    rs[0] = n;
    sj_msg(m, in, n_in, outt);
    to_b32(&sec[4], &bk);
    for (i = 0; i < n; i++) {
        sha_t h; sec[0] = (unsigned char)i; sec[1] = (unsigned char)(i >> 8); sec[2] = 0; sec[3] = 0;
        sha_init(&h); sha_write(&h, sec, 36); sha_fin(&h, sec);
        if (sset(&s[i], sec)) goto out;
    }
    nonce = s[idx[0]]; memset(&s[idx[0]], 0, sizeof(n256));
    if (!borr_sign(p->data, s, pk, &nonce, &bk, rs, idx, 1, m)) goto out;
    for (i = 0; i < n; i++) to_b32(p->data + 32 + 32*i, &s[i]);
    ret = 1;
out:
    free(s); free(pk); return ret;
}
EXPORT int secp256k1_surjectionproof_verify(const secp256k1_context *ctx, const sproof *p, const gen_t *in, size_t n_in, const gen_t *outt) {
    ENTER(surjectionproof_verify);
    n256 *s; gj *pk; size_t n, rs[1], i; unsigned char m[32]; int ret = 0;
    ARG_CHECK(p != NULL); ARG_CHECK(in != NULL); ARG_CHECK(outt != NULL);
    n = n_used(p);
    if (n == 0 || n > p->n_inputs || p->n_inputs != n_in) return 0;
    s = calloc(n, sizeof(*s)); pk = calloc(n, sizeof(*pk));
    if (!sj_pubkeys(pk, n, in, n_in, p, outt, 0, NULL)) goto out;
    rs[0] = n;
    for (i = 0; i < n; i++) if (sset(&s[i], p->data + 32 + 32*i)) goto out;
    sj_msg(m, in, n_in, outt);
    ret = borr_verify(NULL, p->data, s, pk, rs, 1, m);
out:
    free(s); free(pk); return ret;
}
EXPORT size_t secp256k1_surjectionproof_serialized_size(const secp256k1_context *ctx, const sproof *p) {
    ENTER(surjectionproof_serialized_size);
    ARG_CHECK(p != NULL);
    return 2 + (p->n_inputs + 7)/8 + 32*(1 + n_used(p));
}
EXPORT int secp256k1_surjectionproof_serialize(const secp256k1_context *ctx, unsigned char *out, size_t *outlen, const sproof *p) {
    ENTER(surjectionproof_serialize);
    size_t sl, bl, n;
    ARG_CHECK(out != NULL); ARG_CHECK(outlen != NULL); ARG_CHECK(p != NULL);
    sl = 32*(1 + n_used(p)); bl = (p->n_inputs + 7)/8; n = 2 + bl + sl;
    if (*outlen < n) return 0;
    out[0] = (unsigned char)(p->n_inputs % 256); out[1] = (unsigned char)(p->n_inputs / 256);
    memcpy(out + 2, p->used, bl); memcpy(out + 2 + bl, p->data, sl); *outlen = n;
    return 1;
}
EXPORT int secp256k1_surjectionproof_parse(const secp256k1_context *ctx, sproof *p, const unsigned char *in, size_t len) {
    ENTER(surjectionproof_parse);
    size_t n, bl, sl;
    ARG_CHECK(p != NULL); ARG_CHECK(in != NULL);
    if (len < 2) return 0;
    n = (size_t)in[1]*256 + in[0];
    if (n > MAXIN || len < 2 + (n+7)/8) return 0;
    if (n % 8 != 0 && (in[2 + (n+7)/8 - 1] >> (n % 8)) != 0) return 0;
    memset(p, 0, sizeof(*p)); p->n_inputs = n; bl = (n+7)/8; memcpy(p->used, in + 2, bl);
    sl = 32*(1 + n_used(p));
    if (len != 2 + bl + sl) return 0;
    memcpy(p->data, in + 2 + bl, sl);
    return 1;
}
EXPORT size_t vmon_sizeof_surjectionproof(void) { return sizeof(sproof); }
