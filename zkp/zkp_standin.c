/* A stand-in for libsecp256k1-zkp.
 *
 * The sandbox has only plain libsecp256k1.  This file re-implements, from the
 * published algorithms (Shallue - van de Woestijne generators, Pedersen
 * commitments, Borromean-ring rangeproofs with the rewindable side channel,
 * 1-of-n asset surjection proofs), the part of the secp256k1-zkp C API that
 * python-elementstx calls.  It is linked against libsecp256k1.so, so that one
 * library handle offers both sets of functions.
 *
 * It is test equipment: not constant time, no side-channel protection.
 * Byte-exactness against the real library is checked by zkp/selftest.py with the
 * transactions recorded in the repository's test data.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

/* what is exported under these names is at the end of this file */
#define secp256k1_generator_parse r_generator_parse
#define secp256k1_generator_serialize r_generator_serialize
#define secp256k1_generator_generate r_generator_generate
#define secp256k1_generator_generate_blinded r_generator_generate_blinded
#define secp256k1_pedersen_commitment_parse r_pedersen_commitment_parse
#define secp256k1_pedersen_commitment_serialize r_pedersen_commitment_serialize
#define secp256k1_pedersen_commit r_pedersen_commit
#define secp256k1_pedersen_blind_generator_blind_sum r_pedersen_blind_generator_blind_sum
#define secp256k1_rangeproof_sign r_rangeproof_sign
#define secp256k1_rangeproof_info r_rangeproof_info
#define secp256k1_rangeproof_rewind r_rangeproof_rewind
#define secp256k1_surjectionproof_allocate_initialized r_surjectionproof_allocate_initialized
#define secp256k1_surjectionproof_generate r_surjectionproof_generate
#define secp256k1_surjectionproof_verify r_surjectionproof_verify
#define secp256k1_surjectionproof_serialize r_surjectionproof_serialize

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef struct { u64 v[4]; } fe;   /* little endian limbs, always < p */
typedef struct { u64 v[4]; } sc;   /* little endian limbs, always < n */
typedef struct { fe x, y; int inf; } ge;
typedef struct { fe x, y, z; int inf; } gej;

/* ---------------------------------------------------------------- sha256 */
typedef struct { uint32_t s[8]; unsigned char buf[64]; u64 bytes; } sha256;
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define ROR(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void sha_block(uint32_t *s, const unsigned char *p) {
    uint32_t w[64], a,b,c,d,e,f,g,h; int i;
    for (i=0;i<16;i++) w[i]=((uint32_t)p[4*i]<<24)|((uint32_t)p[4*i+1]<<16)|((uint32_t)p[4*i+2]<<8)|p[4*i+3];
    for (;i<64;i++) {
        uint32_t s0=ROR(w[i-15],7)^ROR(w[i-15],18)^(w[i-15]>>3);
        uint32_t s1=ROR(w[i-2],17)^ROR(w[i-2],19)^(w[i-2]>>10);
        w[i]=w[i-16]+s0+w[i-7]+s1;
    }
    a=s[0];b=s[1];c=s[2];d=s[3];e=s[4];f=s[5];g=s[6];h=s[7];
    for (i=0;i<64;i++) {
        uint32_t t1=h+(ROR(e,6)^ROR(e,11)^ROR(e,25))+((e&f)^(~e&g))+K256[i]+w[i];
        uint32_t t2=(ROR(a,2)^ROR(a,13)^ROR(a,22))+((a&b)^(a&c)^(b&c));
        h=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;
    }
    s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e;s[5]+=f;s[6]+=g;s[7]+=h;
}
static void sha_init(sha256 *c) {
    static const uint32_t iv[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(c->s,iv,32); c->bytes=0;
}
static void sha_write(sha256 *c, const void *vp, size_t n) {
    const unsigned char *p=vp;
    while (n--) { c->buf[c->bytes++ & 63]=*p++; if (!(c->bytes & 63)) sha_block(c->s,c->buf); }
}
static void sha_fin(sha256 *c, unsigned char *out) {
    u64 bits=c->bytes*8; unsigned char x=0x80, z=0, l[8]; int i;
    sha_write(c,&x,1);
    while ((c->bytes & 63)!=56) sha_write(c,&z,1);
    for (i=0;i<8;i++) l[i]=bits>>(56-8*i);
    sha_write(c,l,8);
    for (i=0;i<8;i++) { out[4*i]=c->s[i]>>24; out[4*i+1]=c->s[i]>>16; out[4*i+2]=c->s[i]>>8; out[4*i+3]=c->s[i]; }
}
typedef struct { sha256 in, out; } hmac;
static void hmac_init(hmac *h, const unsigned char *key, size_t n) {
    unsigned char k[64], t[64]; int i;
    memset(k,0,64);
    if (n<=64) memcpy(k,key,n); else { sha256 c; sha_init(&c); sha_write(&c,key,n); sha_fin(&c,k); }
    for (i=0;i<64;i++) t[i]=k[i]^0x5c;
    sha_init(&h->out); sha_write(&h->out,t,64);
    for (i=0;i<64;i++) t[i]=k[i]^0x36;
    sha_init(&h->in); sha_write(&h->in,t,64);
}
static void hmac_fin(hmac *h, unsigned char *out) {
    unsigned char t[32]; sha_fin(&h->in,t); sha_write(&h->out,t,32); sha_fin(&h->out,out);
}
typedef struct { unsigned char v[32], k[32]; int retry; } rng;
static void rng_step(rng *r, int withkey, unsigned char tag, const unsigned char *key, size_t n) {
    hmac h;
    hmac_init(&h,r->k,32); sha_write(&h.in,r->v,32); sha_write(&h.in,&tag,1);
    if (withkey) sha_write(&h.in,key,n);
    hmac_fin(&h,r->k);
    hmac_init(&h,r->k,32); sha_write(&h.in,r->v,32); hmac_fin(&h,r->v);
}
static void rng_init(rng *r, const unsigned char *key, size_t n) {
    memset(r->v,1,32); memset(r->k,0,32);
    rng_step(r,1,0,key,n); rng_step(r,1,1,key,n); r->retry=0;
}
static void rng_gen(rng *r, unsigned char *out) {
    hmac h;
    if (r->retry) rng_step(r,0,0,NULL,0);
    hmac_init(&h,r->k,32); sha_write(&h.in,r->v,32); hmac_fin(&h,r->v);
    memcpy(out,r->v,32); r->retry=1;
}

/* ------------------------------------------------------- 256-bit helpers */
static const u64 P[4]={0xFFFFFFFEFFFFFC2FULL,~0ULL,~0ULL,~0ULL};
static const u64 PC[4]={0x1000003D1ULL,0,0,0};
static const u64 N[4]={0xBFD25E8CD0364141ULL,0xBAAEDCE6AF48A03BULL,0xFFFFFFFFFFFFFFFEULL,~0ULL};
static const u64 NC[4]={0x402DA1732FC9BEBFULL,0x4551231950B75FC4ULL,1,0};

static int ge4(const u64 *a, const u64 *b) { int i; for (i=3;i>=0;i--) { if (a[i]>b[i]) return 1; if (a[i]<b[i]) return 0; } return 1; }
static u64 add4(u64 *r, const u64 *a, const u64 *b) { u128 c=0; int i; for (i=0;i<4;i++) { c+=(u128)a[i]+b[i]; r[i]=(u64)c; c>>=64; } return (u64)c; }
static u64 sub4(u64 *r, const u64 *a, const u64 *b) { u64 br=0; int i; for (i=0;i<4;i++) { u128 d=(u128)a[i]-b[i]-br; r[i]=(u64)d; br=(u64)(d>>64)&1; } return br; }
static int z4(const u64 *a) { return !(a[0]|a[1]|a[2]|a[3]); }
static void get32(unsigned char *o, const u64 *a) { int i; for (i=0;i<32;i++) o[i]=a[3-i/8]>>(56-8*(i%8)); }
static void set32(u64 *a, const unsigned char *b) { int i; memset(a,0,32); for (i=0;i<32;i++) a[3-i/8]|=(u64)b[i]<<(56-8*(i%8)); }
static void modadd(u64 *r, const u64 *a, const u64 *b, const u64 *m) {
    u64 t[4]; u64 c=add4(t,a,b);
    if (c || ge4(t,m)) sub4(t,t,m);
    memcpy(r,t,32);
}
static void modneg(u64 *r, const u64 *a, const u64 *m) { if (z4(a)) memset(r,0,32); else sub4(r,m,a); }
/* reduce an 8-limb number modulo 2^256 - c */
static void modred(u64 *r, u64 *w, const u64 *m, const u64 *c, int cn) {
    int i,j;
    while (w[4]|w[5]|w[6]|w[7]) {
        u64 hi[4], t[8]; memcpy(hi,w+4,32); memset(t,0,64); memcpy(t,w,32);
        for (i=0;i<4;i++) {
            u64 k=0;
            if (!hi[i]) continue;
            for (j=0;j<cn;j++) { u128 x=(u128)hi[i]*c[j]+t[i+j]+k; t[i+j]=(u64)x; k=(u64)(x>>64); }
            for (j=i+cn; k && j<8; j++) { u128 x=(u128)t[j]+k; t[j]=(u64)x; k=(u64)(x>>64); }
        }
        memcpy(w,t,64);
    }
    while (ge4(w,m)) sub4(w,w,m);
    memcpy(r,w,32);
}
static void mul8(u64 *w, const u64 *a, const u64 *b) {
    int i,j; memset(w,0,64);
    for (i=0;i<4;i++) {
        u64 k=0;
        for (j=0;j<4;j++) { u128 x=(u128)a[i]*b[j]+w[i+j]+k; w[i+j]=(u64)x; k=(u64)(x>>64); }
        w[i+4]=k;
    }
}
/* ------------------------------------------------------------------ field */
static void fmul(fe *r, const fe *a, const fe *b) {
    u64 w[8]; u64 t[5]; u128 x; u64 k; int i;
    mul8(w,a->v,b->v);
    /* lo + hi * 0x1000003D1 */
    k=0;
    for (i=0;i<4;i++) { x=(u128)w[4+i]*PC[0]+w[i]+k; t[i]=(u64)x; k=(u64)(x>>64); }
    x=(u128)k*PC[0]; /* k < 2^34 */
    {
        u128 c=(u128)t[0]+(u64)x; t[0]=(u64)c; c>>=64;
        c+=(u128)t[1]+(u64)(x>>64); t[1]=(u64)c; c>>=64;
        c+=t[2]; t[2]=(u64)c; c>>=64;
        c+=t[3]; t[3]=(u64)c; c>>=64;
        if (c) { u128 d=(u128)t[0]+PC[0]; t[0]=(u64)d; for (i=1;i<4 && (d>>64);i++) { d=(u128)t[i]+1; t[i]=(u64)d; } }
    }
    while (ge4(t,P)) sub4(t,t,P);
    memcpy(r->v,t,32);
}
static void fsqr(fe *r, const fe *a) { fmul(r,a,a); }
static void fadd(fe *r, const fe *a, const fe *b) { modadd(r->v,a->v,b->v,P); }
static void fneg(fe *r, const fe *a) { modneg(r->v,a->v,P); }
static void fsub(fe *r, const fe *a, const fe *b) { fe t; fneg(&t,b); fadd(r,a,&t); }
static int fzero(const fe *a) { return z4(a->v); }
static int feq(const fe *a, const fe *b) { return !memcmp(a,b,32); }
static void fset(fe *a, u64 x) { memset(a,0,32); a->v[0]=x; }
static int fset32(fe *a, const unsigned char *b) { set32(a->v,b); return !ge4(a->v,P); }
/* as fset32 but reducing, for values that libsecp reduces implicitly */
static int fset32r(fe *a, const unsigned char *b) { int ok=fset32(a,b); if (!ok) sub4(a->v,a->v,P); return ok; }
static void fpow(fe *r, const fe *a, const u64 *e) {
    fe t; int i; fset(&t,1);
    for (i=255;i>=0;i--) { fsqr(&t,&t); if ((e[i>>6]>>(i&63))&1) fmul(&t,&t,a); }
    *r=t;
}
static void finv(fe *r, const fe *a) { u64 e[4]; memcpy(e,P,32); e[0]-=2; fpow(r,a,e); }
static int fsqrt(fe *r, const fe *a) {
    /* (p+1)/4 */
    static const u64 e[4]={0xFFFFFFFFBFFFFF0CULL,~0ULL,~0ULL,0x3FFFFFFFFFFFFFFFULL};
    fe t, u; fpow(&t,a,e); fsqr(&u,&t); *r=t; return feq(&u,a);
}
static int fquad(const fe *a) { fe t; return fsqrt(&t,a); }
static int fodd(const fe *a) { return a->v[0]&1; }

/* ----------------------------------------------------------------- scalar */
static void smul(sc *r, const sc *a, const sc *b) { u64 w[8]; mul8(w,a->v,b->v); modred(r->v,w,N,NC,3); }
static void sadd(sc *r, const sc *a, const sc *b) { modadd(r->v,a->v,b->v,N); }
static void sneg(sc *r, const sc *a) { modneg(r->v,a->v,N); }
static int szero(const sc *a) { return z4(a->v); }
static void su64(sc *a, u64 x) { memset(a,0,32); a->v[0]=x; }
static int sset32(sc *a, const unsigned char *b) { set32(a->v,b); if (ge4(a->v,N)) { sub4(a->v,a->v,N); return 1; } return 0; }
static void sget32(unsigned char *b, const sc *a) { get32(b,a->v); }
static void sinv(sc *r, const sc *a) {
    u64 e[4]; sc t; int i; memcpy(e,N,32); e[0]-=2; su64(&t,1);
    for (i=255;i>=0;i--) { smul(&t,&t,&t); if ((e[i>>6]>>(i&63))&1) smul(&t,&t,a); }
    *r=t;
}

/* ------------------------------------------------------------------ group */
static void gj_inf(gej *r) { memset(r,0,sizeof *r); r->inf=1; }
static void gj_set(gej *r, const ge *a) { r->x=a->x; r->y=a->y; fset(&r->z,1); r->inf=a->inf; }
static void gj_neg(gej *r, const gej *a) { *r=*a; fneg(&r->y,&r->y); }
static void g_neg(ge *r, const ge *a) { *r=*a; fneg(&r->y,&r->y); }
static void gj_dbl(gej *r, const gej *p) {
    fe a,b,c,d,e,f,t; gej o;
    if (p->inf || fzero(&p->y)) { gj_inf(r); return; }
    fsqr(&a,&p->x); fsqr(&b,&p->y); fsqr(&c,&b);
    fadd(&d,&p->x,&b); fsqr(&d,&d); fsub(&d,&d,&a); fsub(&d,&d,&c); fadd(&d,&d,&d);
    fadd(&e,&a,&a); fadd(&e,&e,&a); fsqr(&f,&e);
    fadd(&t,&d,&d); fsub(&o.x,&f,&t);
    fsub(&t,&d,&o.x); fmul(&o.y,&e,&t);
    fadd(&c,&c,&c); fadd(&c,&c,&c); fadd(&c,&c,&c); fsub(&o.y,&o.y,&c);
    fmul(&o.z,&p->y,&p->z); fadd(&o.z,&o.z,&o.z); o.inf=0; *r=o;
}
static void gj_add(gej *r, const gej *p, const gej *q) {
    fe z1,z2,u1,u2,s1,s2,h,rr,h2,h3,v,t; gej o;
    if (p->inf) { *r=*q; return; }
    if (q->inf) { *r=*p; return; }
    fsqr(&z1,&p->z); fsqr(&z2,&q->z);
    fmul(&u1,&p->x,&z2); fmul(&u2,&q->x,&z1);
    fmul(&s1,&p->y,&z2); fmul(&s1,&s1,&q->z);
    fmul(&s2,&q->y,&z1); fmul(&s2,&s2,&p->z);
    fsub(&h,&u2,&u1); fsub(&rr,&s2,&s1);
    if (fzero(&h)) { if (fzero(&rr)) gj_dbl(r,p); else gj_inf(r); return; }
    fsqr(&h2,&h); fmul(&h3,&h2,&h); fmul(&v,&u1,&h2);
    fsqr(&o.x,&rr); fsub(&o.x,&o.x,&h3); fadd(&t,&v,&v); fsub(&o.x,&o.x,&t);
    fsub(&t,&v,&o.x); fmul(&o.y,&rr,&t); fmul(&t,&s1,&h3); fsub(&o.y,&o.y,&t);
    fmul(&o.z,&p->z,&q->z); fmul(&o.z,&o.z,&h); o.inf=0; *r=o;
}
static void gj_addge(gej *r, const gej *p, const ge *q) {
    fe z1,u2,s2,h,rr,h2,h3,v,t; gej o;
    if (q->inf) { *r=*p; return; }
    if (p->inf) { gj_set(r,q); return; }
    fsqr(&z1,&p->z); fmul(&u2,&q->x,&z1); fmul(&s2,&q->y,&z1); fmul(&s2,&s2,&p->z);
    fsub(&h,&u2,&p->x); fsub(&rr,&s2,&p->y);
    if (fzero(&h)) { if (fzero(&rr)) gj_dbl(r,p); else gj_inf(r); return; }
    fsqr(&h2,&h); fmul(&h3,&h2,&h); fmul(&v,&p->x,&h2);
    fsqr(&o.x,&rr); fsub(&o.x,&o.x,&h3); fadd(&t,&v,&v); fsub(&o.x,&o.x,&t);
    fsub(&t,&v,&o.x); fmul(&o.y,&rr,&t); fmul(&t,&p->y,&h3); fsub(&o.y,&o.y,&t);
    fmul(&o.z,&p->z,&h); o.inf=0; *r=o;
}
static void g_set(ge *r, const gej *a) {
    fe zi,z2;
    if (a->inf) { memset(r,0,sizeof *r); r->inf=1; return; }
    finv(&zi,&a->z); fsqr(&z2,&zi); fmul(&r->x,&a->x,&z2); fmul(&z2,&z2,&zi); fmul(&r->y,&a->y,&z2); r->inf=0;
}
static int g_xquad(ge *r, const fe *x) {
    fe t,s; r->x=*x; fsqr(&t,x); fmul(&t,&t,x); fset(&s,7); fadd(&t,&t,&s); r->inf=0; return fsqrt(&r->y,&t);
}
static ge GT[64][16];
static const unsigned char GB[64]={
0x79,0xBE,0x66,0x7E,0xF9,0xDC,0xBB,0xAC,0x55,0xA0,0x62,0x95,0xCE,0x87,0x0B,0x07,0x02,0x9B,0xFC,0xDB,0x2D,0xCE,0x28,0xD9,0x59,0xF2,0x81,0x5B,0x16,0xF8,0x17,0x98,
0x48,0x3A,0xDA,0x77,0x26,0xA3,0xC4,0x65,0x5D,0xA4,0xFB,0xFC,0x0E,0x11,0x08,0xA8,0xFD,0x17,0xB4,0x48,0xA6,0x85,0x54,0x19,0x9C,0x47,0xD0,0x8F,0xFB,0x10,0xD4,0xB8};
__attribute__((constructor)) static void ginit(void) {
    ge g; gej b, t; int i,j;
    fset32(&g.x,GB); fset32(&g.y,GB+32); g.inf=0; gj_set(&b,&g);
    for (i=0;i<64;i++) {
        gj_inf(&t);
        for (j=0;j<16;j++) { g_set(&GT[i][j],&t); gj_add(&t,&t,&b); }
        b=t;
    }
}
static void mulG(gej *r, const sc *n) {
    int i; gj_inf(r);
    for (i=0;i<64;i++) { int d=(n->v[i>>4]>>((i&15)*4))&15; if (d) gj_addge(r,r,&GT[i][d]); }
}
static void mulP(gej *r, const gej *p, const sc *n) {
    gej t[16]; int i, started=0; gj_inf(&t[0]); t[1]=*p;
    for (i=2;i<16;i++) { if (i&1) gj_add(&t[i],&t[i-1],p); else gj_dbl(&t[i],&t[i/2]); }
    gj_inf(r);
    for (i=63;i>=0;i--) {
        int d=(n->v[i>>4]>>((i&15)*4))&15;
        if (started) { gj_dbl(r,r); gj_dbl(r,r); gj_dbl(r,r); gj_dbl(r,r); }
        if (d) { gj_add(r,r,&t[d]); started=1; }
    }
}
/* r = na*p + ng*G */
static void ecmult(gej *r, const gej *p, const sc *na, const sc *ng) { gej a; mulP(r,p,na); mulG(&a,ng); gj_add(r,r,&a); }
static void ped_ecmult(gej *r, const sc *sec, u64 v, const ge *genp) { gej g; sc s; su64(&s,v); gj_set(&g,genp); ecmult(r,&g,&s,sec); }
static void ser_comp(unsigned char *o, const ge *a) { o[0]=2+fodd(&a->y); get32(o+1,a->x.v); }
static void ser_quad(unsigned char *o, const ge *a) { o[0]=!fquad(&a->y); get32(o+1,a->x.v); }

/* -------------------------------------------------------------- generator */
static void gen_load(ge *g, const unsigned char *d) { fset32(&g->x,d); fset32(&g->y,d+32); g->inf=0; }
static void gen_save(unsigned char *d, const ge *g) { get32(d,g->x.v); get32(d+32,g->y.v); }

int secp256k1_generator_parse(const void *ctx, unsigned char *gen, const unsigned char *in) {
    fe x; ge g; (void)ctx;
    if ((in[0]&0xFE)!=10 || !fset32(&x,in+1) || !g_xquad(&g,&x)) return 0;
    if (in[0]&1) g_neg(&g,&g);
    gen_save(gen,&g); return 1;
}
int secp256k1_generator_serialize(const void *ctx, unsigned char *out, const unsigned char *gen) {
    ge g; (void)ctx; gen_load(&g,gen); out[0]=11^fquad(&g.y); get32(out+1,g.x.v); return 1;
}
static void svdw(ge *r, const fe *t) {
    static const unsigned char cb[32]={0x0a,0x2d,0x2b,0xa9,0x35,0x07,0xf1,0xdf,0x23,0x37,0x70,0xc2,0xa7,0x97,0x96,0x2c,0xc6,0x1f,0x6d,0x15,0xda,0x14,0xec,0xd4,0x7d,0x8d,0x27,0xae,0x1c,0xd5,0xf8,0x52};
    fe c,d,wn,wd,x1n,x2n,x3n,x3d,jinv,tmp,x[3],one,two,seven,e; int i;
    fset32(&c,cb); fset(&one,1); fset(&two,2); fset(&seven,7);
    fsub(&d,&c,&one); finv(&tmp,&two); fmul(&d,&d,&tmp);
    fmul(&wn,&c,t);
    fsqr(&wd,t); fset(&tmp,8); fadd(&wd,&wd,&tmp);
    fmul(&tmp,t,&wn); fmul(&x1n,&d,&wd); fsub(&x1n,&x1n,&tmp);
    fadd(&x2n,&x1n,&wd); fneg(&x2n,&x2n);
    fsqr(&x3d,&wn);
    fsqr(&x3n,&wd); fadd(&x3n,&x3n,&x3d);
    fmul(&jinv,&x3d,&wd); finv(&jinv,&jinv);
    fmul(&tmp,&x3d,&jinv); fmul(&x[0],&x1n,&tmp); fmul(&x[1],&x2n,&tmp);
    fmul(&tmp,&wd,&jinv); fmul(&x[2],&x3n,&tmp);
    for (i=0;i<3;i++) {
        fsqr(&e,&x[i]); fmul(&e,&e,&x[i]); fadd(&e,&e,&seven);
        if (fsqrt(&r->y,&e) || i==2) break;
    }
    r->x=x[i]; r->inf=0;
    if (fodd(t)) fneg(&r->y,&r->y);
}
static int gen_internal(unsigned char *gen, const unsigned char *key, const unsigned char *blind) {
    gej acc; ge a; fe t; sha256 h; unsigned char b[32]; int ret=1; sc s;
    gj_inf(&acc);
    if (blind) { if (sset32(&s,blind)) ret=0; mulG(&acc,&s); }
    sha_init(&h); sha_write(&h,"1st generation: ",16); sha_write(&h,key,32); sha_fin(&h,b);
    ret&=fset32r(&t,b); svdw(&a,&t); gj_addge(&acc,&acc,&a);
    sha_init(&h); sha_write(&h,"2nd generation: ",16); sha_write(&h,key,32); sha_fin(&h,b);
    ret&=fset32r(&t,b); svdw(&a,&t); gj_addge(&acc,&acc,&a);
    g_set(&a,&acc); gen_save(gen,&a); return ret;
}
int secp256k1_generator_generate(const void *ctx, unsigned char *gen, const unsigned char *key) { (void)ctx; return gen_internal(gen,key,NULL); }
int secp256k1_generator_generate_blinded(const void *ctx, unsigned char *gen, const unsigned char *key, const unsigned char *blind) { (void)ctx; return gen_internal(gen,key,blind); }

/* --------------------------------------------------------------- pedersen */
static void com_load(ge *g, const unsigned char *d) { fe x; fset32(&x,d+1); g_xquad(g,&x); if (d[0]&1) g_neg(g,g); }
static void com_save(unsigned char *d, const ge *g) { memset(d,0,64); d[0]=9^fquad(&g->y); get32(d+1,g->x.v); }

int secp256k1_pedersen_commitment_parse(const void *ctx, unsigned char *com, const unsigned char *in) {
    fe x; ge g; (void)ctx;
    if ((in[0]&0xFE)!=8 || !fset32(&x,in+1) || !g_xquad(&g,&x)) return 0;
    if (in[0]&1) g_neg(&g,&g);
    com_save(com,&g); return 1;
}
int secp256k1_pedersen_commitment_serialize(const void *ctx, unsigned char *out, const unsigned char *com) { (void)ctx; memcpy(out,com,33); return 1; }
int secp256k1_pedersen_commit(const void *ctx, unsigned char *com, const unsigned char *blind, u64 value, const unsigned char *gen) {
    ge g; gej r; sc s; (void)ctx;
    gen_load(&g,gen);
    if (sset32(&s,blind)) return 0;
    ped_ecmult(&r,&s,value,&g);
    if (r.inf) return 0;
    g_set(&g,&r); com_save(com,&g); return 1;
}
int secp256k1_pedersen_blind_generator_blind_sum(const void *ctx, const u64 *value, const unsigned char *const *gblind, unsigned char *const *bf, size_t n_total, size_t n_inputs) {
    sc sum,add,tmp; size_t i; (void)ctx;
    if (n_total==0) return 1;
    if (n_total<=n_inputs) return 0;
    su64(&sum,0); su64(&tmp,0);
    for (i=0;i<n_total;i++) {
        su64(&add,value[i]);
        if (sset32(&tmp,gblind[i])) return 0;
        smul(&add,&add,&tmp);
        if (sset32(&tmp,bf[i])) return 0;
        sadd(&add,&add,&tmp);
        if (i<n_inputs) sneg(&add,&add);
        sadd(&sum,&sum,&add);
    }
    sneg(&sum,&sum); sadd(&tmp,&tmp,&sum);
    sget32(bf[n_total-1],&tmp); return 1;
}
/* Sum of commitments: 1 iff sum(pos) - sum(neg) is the point at infinity.
 * n 33-byte serialized points, tags 8..11 (Pedersen / generator). */
int secp256k1_pedersen_verify_tally(const void *ctx, const unsigned char *const *pos, size_t np, const unsigned char *const *neg, size_t nn) {
    gej acc; ge g; size_t i; (void)ctx; gj_inf(&acc);
    for (i=0;i<np;i++) { com_load(&g,pos[i]); gj_addge(&acc,&acc,&g); }
    for (i=0;i<nn;i++) { com_load(&g,neg[i]); g_neg(&g,&g); gj_addge(&acc,&acc,&g); }
    return acc.inf;
}

/* -------------------------------------------------------------- borromean */
static void bhash(unsigned char *o, const unsigned char *m, const unsigned char *e, size_t elen, size_t ridx, size_t eidx) {
    sha256 h; unsigned char b[8]; int i; sha_init(&h); sha_write(&h,e,elen); sha_write(&h,m,32);
    for (i=0;i<4;i++) { b[i]=ridx>>(24-8*i); b[4+i]=eidx>>(24-8*i); }
    sha_write(&h,b,8); sha_fin(&h,o);
}
static int bverify(sc *ev, const unsigned char *e0, const sc *s, const gej *pubs, const size_t *rs, size_t nr, const unsigned char *m) {
    sha256 h; unsigned char t[33]; sc en; gej r; ge g; size_t i,j,c=0; int ov;
    sha_init(&h);
    for (i=0;i<nr;i++) {
        bhash(t,m,e0,32,i,0); ov=sset32(&en,t);
        for (j=0;j<rs[i];j++,c++) {
            if (ov || szero(&s[c]) || szero(&en) || pubs[c].inf) return 0;
            if (ev) ev[c]=en;
            ecmult(&r,&pubs[c],&en,&s[c]); if (r.inf) return 0;
            g_set(&g,&r); ser_comp(t,&g);
            if (j!=rs[i]-1) { bhash(t,m,t,33,i,j+1); ov=sset32(&en,t); } else sha_write(&h,t,33);
        }
    }
    sha_write(&h,m,32); sha_fin(&h,t); return !memcmp(e0,t,32);
}
static int bsign(unsigned char *e0, sc *s, const gej *pubs, const sc *k, const sc *sec, const size_t *rs, const size_t *idx, size_t nr, const unsigned char *m) {
    sha256 h; unsigned char t[33]; sc en; gej r; ge g; size_t i,j,c=0;
    sha_init(&h);
    for (i=0;i<nr;i++) {
        mulG(&r,&k[i]); if (r.inf) return 0;
        g_set(&g,&r); ser_comp(t,&g);
        for (j=idx[i]+1;j<rs[i];j++) {
            bhash(t,m,t,33,i,j); if (sset32(&en,t) || szero(&en)) return 0;
            ecmult(&r,&pubs[c+j],&en,&s[c+j]); if (r.inf) return 0;
            g_set(&g,&r); ser_comp(t,&g);
        }
        sha_write(&h,t,33); c+=rs[i];
    }
    sha_write(&h,m,32); sha_fin(&h,e0);
    c=0;
    for (i=0;i<nr;i++) {
        bhash(t,m,e0,32,i,0); if (sset32(&en,t) || szero(&en)) return 0;
        for (j=0;j<idx[i];j++) {
            ecmult(&r,&pubs[c+j],&en,&s[c+j]); if (r.inf) return 0;
            g_set(&g,&r); ser_comp(t,&g);
            bhash(t,m,t,33,i,j+1); if (sset32(&en,t) || szero(&en)) return 0;
        }
        smul(&s[c+j],&en,&sec[i]); sneg(&s[c+j],&s[c+j]); sadd(&s[c+j],&s[c+j],&k[i]);
        if (szero(&s[c+j])) return 0;
        c+=rs[i];
    }
    return 1;
}

/* ------------------------------------------------------------- rangeproof */
static void pub_expand(gej *pubs, int exp, const size_t *rs, size_t rings, const ge *genp) {
    gej base,t; size_t i,j,n=0;
    if (exp<0) exp=0;
    gj_set(&base,genp); gj_neg(&base,&base);
    while (exp--) { gj_dbl(&t,&base); gj_dbl(&base,&t); gj_dbl(&base,&base); gj_add(&base,&base,&t); }
    for (i=0;i<rings;i++) {
        for (j=1;j<rs[i];j++) gj_add(&pubs[n+j],&pubs[n+j-1],&base);
        if (i<rings-1) { gj_dbl(&base,&base); gj_dbl(&base,&base); }
        n+=rs[i];
    }
}
static int genrand(sc *sec, sc *s, unsigned char *msg, const size_t *rs, size_t rings, const unsigned char *nonce, const ge *commit, const unsigned char *proof, size_t len, const ge *genp) {
    unsigned char t[32], seed[32+33+33+10]; rng r; sc acc; size_t i,j,n=0; int ret=1,b,ov;
    memcpy(seed,nonce,32); ser_quad(seed+32,commit); ser_quad(seed+65,genp); memcpy(seed+98,proof,len);
    rng_init(&r,seed,98+len); su64(&acc,0);
    for (i=0;i<rings;i++) {
        if (i<rings-1) {
            rng_gen(&r,t);
            do { rng_gen(&r,t); ov=sset32(&sec[i],t); } while (ov || szero(&sec[i]));
            sadd(&acc,&acc,&sec[i]);
        } else { sneg(&acc,&acc); sec[i]=acc; }
        for (j=0;j<rs[i];j++) {
            rng_gen(&r,t);
            if (msg) for (b=0;b<32;b++) { t[b]^=msg[(i*4+j)*32+b]; msg[(i*4+j)*32+b]=t[b]; }
            ov=sset32(&s[n],t); ret&=!(ov || szero(&s[n])); n++;
        }
    }
    return ret;
}
int secp256k1_rangeproof_sign(const void *ctx, unsigned char *proof, size_t *plen, u64 min_value, const unsigned char *com,
    const unsigned char *blind, const unsigned char *nonce, int exp, int min_bits, u64 value,
    const unsigned char *message, size_t msg_len, const unsigned char *extra, size_t extra_len, const unsigned char *gen) {
    gej pubs[128]; sc s[128], sec[32], k[32], st; sha256 h; unsigned char prep[4096], tmp[33], *signs;
    u64 v=0, scale=1, v2; int mantissa=0; size_t rings=1, rs[32], idx[32], npub=0, len=0, i; ge commit, genp;
    (void)ctx;
    com_load(&commit,com); gen_load(&genp,gen);
    if (*plen<65 || min_value>value || min_bits>64 || min_bits<0 || exp<-1 || exp>18) return 0;
    rs[0]=1; idx[0]=0;
    if (min_value==UINT64_MAX) exp=-1;
    if (exp>=0) {
        int max_bits;
        if ((min_value && value>INT64_MAX) || (value && min_value>=INT64_MAX)) return 0;
        max_bits=min_value?__builtin_clzll(min_value):64;
        if (min_bits>max_bits) min_bits=max_bits;
        if (min_bits>61 || value>INT64_MAX) exp=0;
        v=value-min_value;
        v2=min_bits?(UINT64_MAX>>(64-min_bits)):0;
        for (i=0;(int)i<exp && v2<=UINT64_MAX/10;i++) { v/=10; v2*=10; }
        exp=i; v2=v;
        for (i=0;(int)i<exp;i++) { v2*=10; scale*=10; }
        min_value=value-v2;
        mantissa=v?64-__builtin_clzll(v):1;
        if (min_bits>mantissa) mantissa=min_bits;
        rings=(mantissa+1)>>1;
        for (i=0;i<rings;i++) { rs[i]=((i<rings-1)|(!(mantissa&1)))?4:2; npub+=rs[i]; idx[i]=(v>>(i*2))&3; }
    } else { exp=0; min_value=value; v=0; npub=2; }
    proof[len++]=(rs[0]>1?(64|exp):0)|(min_value?32:0);
    if (rs[0]>1) proof[len++]=mantissa-1;
    if (min_value) { for (i=0;i<8;i++) proof[len+i]=min_value>>((7-i)*8); len+=8; }
    if (msg_len>0 && msg_len>128*(rings-1)) return 0;
    if (*plen-len<32*(npub+rings-1)+32+((rings+6)>>3)) return 0;
    sha_init(&h); ser_quad(tmp,&commit); sha_write(&h,tmp,33); ser_quad(tmp,&genp); sha_write(&h,tmp,33); sha_write(&h,proof,len);
    memset(prep,0,4096); if (message) memcpy(prep,message,msg_len);
    if (rs[rings-1]>1) {
        size_t x=rs[rings-1]-1; x-=(idx[rings-1]==x); x=((rings-1)*4+x)*32;
        for (i=0;i<8;i++) { prep[8+i+x]=prep[16+i+x]=prep[24+i+x]=(v>>(56-i*8))&255; prep[i+x]=0; }
        prep[x]=128;
    }
    if (!genrand(sec,s,prep,rs,rings,nonce,&commit,proof,len,&genp)) return 0;
    for (i=0;i<rings;i++) { k[i]=s[i*4+idx[i]]; su64(&s[i*4+idx[i]],0); }
    if (sset32(&st,blind)) return 0;
    sadd(&sec[rings-1],&sec[rings-1],&st); if (szero(&sec[rings-1])) return 0;
    signs=&proof[len]; for (i=0;i<((rings+6)>>3);i++) { signs[i]=0; len++; }
    npub=0;
    for (i=0;i<rings;i++) {
        ped_ecmult(&pubs[npub],&sec[i],((u64)idx[i]*scale)<<(i*2),&genp);
        if (pubs[npub].inf) return 0;
        if (i<rings-1) { ge c; unsigned char tc[33]; g_set(&c,&pubs[npub]); ser_quad(tc,&c); sha_write(&h,tc,33); signs[i>>3]|=tc[0]<<(i&7); memcpy(proof+len,tc+1,32); len+=32; }
        npub+=rs[i];
    }
    pub_expand(pubs,exp,rs,rings,&genp);
    if (extra) sha_write(&h,extra,extra_len);
    sha_fin(&h,tmp);
    if (!bsign(proof+len,s,pubs,k,sec,rs,idx,rings,tmp)) return 0;
    len+=32;
    for (i=0;i<npub;i++) { sget32(proof+len,&s[i]); len+=32; }
    *plen=len; return 1;
}
static int getheader(size_t *off, int *exp, int *mant, u64 *scale, u64 *minv, u64 *maxv, const unsigned char *p, size_t plen) {
    int i, nz, hm;
    if (plen<65 || (p[*off]&128)) return 0;
    nz=p[*off]&64; hm=p[*off]&32; *exp=-1; *mant=0;
    if (nz) {
        *exp=p[*off]&31; *off+=1; if (*exp>18) return 0;
        *mant=p[*off]+1; if (*mant>64) return 0;
        *maxv=UINT64_MAX>>(64-*mant);
    } else *maxv=0;
    *off+=1; *scale=1;
    for (i=0;i<*exp;i++) { if (*maxv>UINT64_MAX/10) return 0; *maxv*=10; *scale*=10; }
    *minv=0;
    if (hm) { if (plen-*off<8) return 0; for (i=0;i<8;i++) *minv=(*minv<<8)|p[*off+i]; *off+=8; }
    if (*maxv>UINT64_MAX-*minv) return 0;
    *maxv+=*minv; return 1;
}
int secp256k1_rangeproof_info(const void *ctx, int *exp, int *mant, u64 *minv, u64 *maxv, const unsigned char *proof, size_t plen) {
    size_t off=0; u64 scale=1; (void)ctx; return getheader(&off,exp,mant,&scale,minv,maxv,proof,plen);
}
static void xor32(unsigned char *a, const unsigned char *b) { int i; for (i=0;i<32;i++) a[i]^=b[i]; }
static int rewind_inner(sc *blind, u64 *v, unsigned char *m, size_t *mlen, const sc *ev, const sc *s, const size_t *rs, size_t rings,
    const unsigned char *nonce, const ge *commit, const unsigned char *proof, size_t len, const ge *genp) {
    sc so[128], sec[32], st, e; unsigned char prep[4096], t[32]; u64 value=0; size_t off,i,j,npub,skip1,skip2; int b;
    memset(prep,0,4096);
    genrand(sec,so,prep,rs,rings,nonce,commit,proof,len,genp);
    *v=UINT64_MAX; su64(blind,0);
    if (rings==1 && rs[0]==1) {
        sneg(blind,&s[0]); sadd(blind,blind,&so[0]); sinv(&e,&ev[0]); smul(blind,blind,&e);
        *v=0; if (mlen) *mlen=0; return 1;
    }
    npub=(rings-1)<<2;
    for (j=0;j<2;j++) {
        size_t x=npub+rs[rings-1]-1-j;
        sget32(t,&s[x]); xor32(t,&prep[x*32]);
        if ((t[0]&128) && !memcmp(t+16,t+24,8) && !memcmp(t+8,t+16,8)) {
            value=0; for (i=0;i<8;i++) value=(value<<8)+t[24+i];
            *v=value; memcpy(&prep[x*32],t,32); break;
        }
    }
    if (j>1) { if (mlen) *mlen=0; return 0; }
    skip1=rs[rings-1]-1-j; skip2=(value>>((rings-1)<<1))&3;
    if (skip1==skip2) { if (mlen) *mlen=0; return 0; }
    skip1+=(rings-1)<<2; skip2+=(rings-1)<<2;
    sneg(&st,&s[skip2]); sadd(&st,&st,&so[skip2]); sinv(&e,&ev[skip2]); smul(&st,&st,&e);
    sneg(&sec[rings-1],&sec[rings-1]); sadd(blind,&st,&sec[rings-1]);
    if (!m || !mlen || !*mlen) { if (mlen) *mlen=0; return 1; }
    off=0; npub=0;
    for (i=0;i<rings;i++) {
        size_t x=(value>>(i<<1))&3;
        for (j=0;j<rs[i];j++) {
            if (npub==skip1 || npub==skip2) { npub++; continue; }
            if (x==j) { smul(&st,&sec[i],&ev[npub]); sadd(&st,&st,&s[npub]); } else st=s[npub];
            sget32(t,&st); xor32(t,&prep[npub*32]);
            for (b=0;b<32 && off<*mlen;b++) m[off++]=t[b];
            npub++;
        }
    }
    *mlen=off; return 1;
}
static int rp_verify(unsigned char *blind_out, u64 *value_out, unsigned char *msg, size_t *outlen, const unsigned char *nonce,
    u64 *minv, u64 *maxv, const ge *commit, const unsigned char *proof, size_t plen, const unsigned char *extra, size_t extra_len, const ge *genp) {
    gej pubs[128], acc; ge c; sc s[128], ev[128]; sha256 h; size_t rs[32], i, npub, off=0, posth, rings; int exp, mant, ret; u64 scale;
    unsigned char signs[31], m[33]; const unsigned char *e0; fe f;
    if (!getheader(&off,&exp,&mant,&scale,minv,maxv,proof,plen)) return 0;
    posth=off; rings=1; rs[0]=1; npub=1;
    if (mant!=0) {
        rings=mant>>1; for (i=0;i<rings;i++) rs[i]=4;
        npub=(mant>>1)<<2;
        if (mant&1) { rs[rings]=2; npub+=2; rings++; }
    }
    if (plen-off<32*(npub+rings-1)+32+((rings+6)>>3)) return 0;
    sha_init(&h); ser_quad(m,commit); sha_write(&h,m,33); ser_quad(m,genp); sha_write(&h,m,33); sha_write(&h,proof,off);
    for (i=0;i<rings-1;i++) signs[i]=(proof[off+(i>>3)]&(1<<(i&7)))!=0;
    off+=(rings+6)>>3;
    if ((rings-1)&7) if ((proof[off-1]>>((rings-1)&7))!=0) return 0;
    npub=0; gj_inf(&acc);
    if (*minv) { sc z; su64(&z,0); ped_ecmult(&acc,&z,*minv,genp); }
    for (i=0;i<rings-1;i++) {
        if (!fset32(&f,proof+off) || !g_xquad(&c,&f)) return 0;
        if (signs[i]) g_neg(&c,&c);
        sha_write(&h,&signs[i],1); sha_write(&h,proof+off,32);
        gj_set(&pubs[npub],&c); gj_addge(&acc,&acc,&c);
        off+=32; npub+=rs[i];
    }
    gj_neg(&acc,&acc); gj_addge(&pubs[npub],&acc,commit);
    if (pubs[npub].inf) return 0;
    pub_expand(pubs,exp,rs,rings,genp);
    npub+=rs[rings-1];
    e0=proof+off; off+=32;
    for (i=0;i<npub;i++) { if (sset32(&s[i],proof+off)) return 0; off+=32; }
    if (off!=plen) return 0;
    if (extra) sha_write(&h,extra,extra_len);
    sha_fin(&h,m);
    ret=bverify(nonce?ev:NULL,e0,s,pubs,rs,rings,m);
    if (ret && nonce) {
        sc blind; u64 vv;
        if (!rewind_inner(&blind,&vv,msg,outlen,ev,s,rs,rings,nonce,commit,proof,posth,genp)) return 0;
        vv=vv*scale+*minv;
        ped_ecmult(&acc,&blind,vv,genp); if (acc.inf) return 0;
        gj_neg(&acc,&acc); gj_addge(&acc,&acc,commit); if (!acc.inf) return 0;
        if (blind_out) sget32(blind_out,&blind);
        if (value_out) *value_out=vv;
    }
    return ret;
}
int secp256k1_rangeproof_rewind(const void *ctx, unsigned char *blind_out, u64 *value_out, unsigned char *msg, size_t *outlen, const unsigned char *nonce,
    u64 *minv, u64 *maxv, const unsigned char *com, const unsigned char *proof, size_t plen, const unsigned char *extra, size_t extra_len, const unsigned char *gen) {
    ge c,g; (void)ctx; com_load(&c,com); gen_load(&g,gen);
    return rp_verify(blind_out,value_out,msg,outlen,nonce,minv,maxv,&c,proof,plen,extra,extra_len,&g);
}
int secp256k1_rangeproof_verify(const void *ctx, u64 *minv, u64 *maxv, const unsigned char *com, const unsigned char *proof, size_t plen, const unsigned char *extra, size_t extra_len, const unsigned char *gen) {
    ge c,g; (void)ctx; com_load(&c,com); gen_load(&g,gen);
    return rp_verify(NULL,NULL,NULL,NULL,NULL,minv,maxv,&c,proof,plen,extra,extra_len,&g);
}

/* ------------------------------------------------------------- surjection */
#define MAXIN 256
typedef struct { size_t n_inputs; unsigned char used[MAXIN/8]; unsigned char data[32*(1+MAXIN)]; } surj;
typedef struct { unsigned char st[32]; size_t i; } csprng;
static size_t cs_next(csprng *c, size_t max) {
    const size_t inc=max>256?2:1, range=max>256?0xffff:0xff, limit=((range+1)/max)*max;
    for (;;) {
        size_t v;
        if (c->i+inc>=32) { sha256 h; sha_init(&h); sha_write(&h,c->st,32); sha_fin(&h,c->st); c->i=0; }
        v=c->st[c->i]; if (inc>1) v=(v<<8)+c->st[c->i+1];
        c->i+=inc;
        if (v<limit) return v%max;
    }
}
static size_t n_used(const surj *p) { size_t n=0,i; for (i=0;i<p->n_inputs;i++) n+=(p->used[i/8]>>(i%8))&1; return n; }
int secp256k1_surjectionproof_allocate_initialized(const void *ctx, surj **out, size_t *input_index, const unsigned char *tags, size_t n,
    size_t use, const unsigned char *otag, size_t max_iter, const unsigned char *seed) {
    surj *p; csprng c; size_t left=max_iter; (void)ctx;
    if (n>MAXIN || use>MAXIN || use>n) return 0;
    p=calloc(1,sizeof *p); if (!p) return 0;
    memcpy(c.st,seed,32); c.i=0; p->n_inputs=n;
    for (;;) {
        int has=0; size_t i;
        memset(p->used,0,sizeof p->used);
        for (i=0;i<use;i++) for (;;) {
            size_t x=cs_next(&c,n);
            if (!memcmp(tags+32*x,otag,32)) { *input_index=x; has=1; }
            if (!(p->used[x/8]&(1<<(x%8)))) { p->used[x/8]|=1<<(x%8); break; }
        }
        left--;
        if (has) { *out=p; return (int)(max_iter-left); }
        if (!left) { free(p); *out=NULL; return 0; }
    }
}
void secp256k1_surjectionproof_destroy(surj *p) { free(p); }
static int surj_keys(gej *pubs, const surj *p, const unsigned char *tags, const unsigned char *otag, size_t idx, size_t *ridx) {
    size_t i,j=0; ge g;
    for (i=0;i<p->n_inputs;i++) if ((p->used[i/8]>>(i%8))&1) {
        gen_load(&g,tags+64*i); g_neg(&g,&g); gj_set(&pubs[j],&g);
        gen_load(&g,otag); gj_addge(&pubs[j],&pubs[j],&g);
        if (ridx && idx==i) *ridx=j;
        j++;
    }
    return 1;
}
static void surj_msg(unsigned char *m, const unsigned char *tags, size_t n, const unsigned char *otag) {
    sha256 h; ge g; unsigned char b[33]; size_t i; sha_init(&h);
    for (i=0;i<n;i++) { gen_load(&g,tags+64*i); ser_comp(b,&g); sha_write(&h,b,33); }
    gen_load(&g,otag); ser_comp(b,&g); sha_write(&h,b,33); sha_fin(&h,m);
}
int secp256k1_surjectionproof_generate(const void *ctx, surj *p, const unsigned char *tags, size_t n, const unsigned char *otag, size_t idx, const unsigned char *ikey, const unsigned char *okey) {
    sc a,key,s[MAXIN],k; gej pubs[MAXIN]; size_t rs[1],ri[1],ridx=0,i,nu; unsigned char m[32], in[36]; (void)ctx;
    if (sset32(&a,ikey) || sset32(&key,okey)) return 0;
    if (!memcmp(&a,&key,sizeof a) && !szero(&key)) return 0;
    sneg(&a,&a); sadd(&key,&key,&a);
    nu=n_used(p); if (p->n_inputs!=n) return 0;
    surj_keys(pubs,p,tags,otag,idx,&ridx);
    rs[0]=nu; ri[0]=ridx; surj_msg(m,tags,n,otag);
    sget32(in+4,&key);
    for (i=0;i<nu;i++) {
        sha256 h; in[0]=i; in[1]=i>>8; in[2]=i>>16; in[3]=i>>24;
        sha_init(&h); sha_write(&h,in,36); sha_fin(&h,in);
        if (sset32(&s[i],in)) return 0;
    }
    k=s[ridx]; su64(&s[ridx],0);
    if (!bsign(p->data,s,pubs,&k,&key,rs,ri,1,m)) return 0;
    for (i=0;i<nu;i++) sget32(p->data+32+32*i,&s[i]);
    return 1;
}
int secp256k1_surjectionproof_verify(const void *ctx, const surj *p, const unsigned char *tags, size_t n, const unsigned char *otag) {
    sc s[MAXIN]; gej pubs[MAXIN]; size_t rs[1],i,nu=n_used(p); unsigned char m[32]; (void)ctx;
    if (nu==0 || p->n_inputs!=n) return 0;
    surj_keys(pubs,p,tags,otag,0,NULL); rs[0]=nu; surj_msg(m,tags,n,otag);
    for (i=0;i<nu;i++) if (sset32(&s[i],p->data+32+32*i)) return 0;
    return bverify(NULL,p->data,s,pubs,rs,1,m);
}
size_t secp256k1_surjectionproof_serialized_size(const void *ctx, const surj *p) { (void)ctx; return 2+(p->n_inputs+7)/8+32*(1+n_used(p)); }
int secp256k1_surjectionproof_serialize(const void *ctx, unsigned char *out, size_t *len, const surj *p) {
    size_t sig=32*(1+n_used(p)), bm=(p->n_inputs+7)/8; (void)ctx;
    if (*len<2+bm+sig) return 0;
    out[0]=p->n_inputs%0x100; out[1]=p->n_inputs/0x100;
    memcpy(out+2,p->used,bm); memcpy(out+2+bm,p->data,sig); *len=2+bm+sig; return 1;
}
int secp256k1_surjectionproof_parse(const void *ctx, surj *p, const unsigned char *in, size_t len) {
    size_t n,bm,sig; (void)ctx;
    if (len<2) return 0;
    n=((size_t)in[1]<<8)+in[0]; bm=(n+7)/8;
    if (n>MAXIN || len<2+bm) return 0;
    if (n%8!=0 && (in[2+bm-1]>>(n%8))) return 0;
    memset(p,0,sizeof *p); p->n_inputs=n; memcpy(p->used,in+2,bm);
    sig=32*(1+n_used(p)); if (len!=2+bm+sig) return 0;
    memcpy(p->data,in+2+bm,sig); return 1;
}
/* parse + verify in one call (test-only entry point) */
int standin_surjection_check(const unsigned char *proof, size_t len, const unsigned char *tags, size_t n, const unsigned char *otag) {
    surj *p=calloc(1,sizeof *p); int r;
    r=secp256k1_surjectionproof_parse(NULL,p,proof,len) && secp256k1_surjectionproof_verify(NULL,p,tags,n,otag);
    free(p); return r;
}
int standin_marker(void) { return 1; }

/* ------------------------------------------------ calls that can be made to fail */
static int arm_at=-1, arm_mode, n_calls;
static const char *call_log[4096];
/* The call number at from now on fails: mode 0 without doing anything, 1 after having done what it does;
   2: that call and all later ones. at < 0: none. Counts calls from 0 again. */
void standin_arm(int at, int mode) { arm_at=at; arm_mode=mode; n_calls=0; }
int standin_calls(void) { return n_calls; }
const char *standin_call(int k) { return k>=0 && k<n_calls && k<4096 ? call_log[k] : NULL; }
static int gate(const char *name) {
    int k=n_calls++;
    if (k<4096) call_log[k]=name;
    if (arm_at<0 || k<arm_at || (k>arm_at && arm_mode!=2)) return 0;
    return arm_mode==1 ? 1 : 2;
}
#define GATED(name, params, call) int name params { int g_=gate(#name), x_; if (g_==2) return 0; x_=call; return g_==1 ? 0 : x_; }
#undef secp256k1_generator_parse
GATED(secp256k1_generator_parse, (const void *c, unsigned char *a, const unsigned char *b), r_generator_parse(c,a,b))
#undef secp256k1_generator_serialize
GATED(secp256k1_generator_serialize, (const void *c, unsigned char *a, const unsigned char *b), r_generator_serialize(c,a,b))
#undef secp256k1_generator_generate
GATED(secp256k1_generator_generate, (const void *c, unsigned char *a, const unsigned char *b), r_generator_generate(c,a,b))
#undef secp256k1_generator_generate_blinded
GATED(secp256k1_generator_generate_blinded, (const void *c, unsigned char *a, const unsigned char *b, const unsigned char *d), r_generator_generate_blinded(c,a,b,d))
#undef secp256k1_pedersen_commitment_parse
GATED(secp256k1_pedersen_commitment_parse, (const void *c, unsigned char *a, const unsigned char *b), r_pedersen_commitment_parse(c,a,b))
#undef secp256k1_pedersen_commitment_serialize
GATED(secp256k1_pedersen_commitment_serialize, (const void *c, unsigned char *a, const unsigned char *b), r_pedersen_commitment_serialize(c,a,b))
#undef secp256k1_pedersen_commit
GATED(secp256k1_pedersen_commit, (const void *c, unsigned char *a, const unsigned char *b, u64 v, const unsigned char *g), r_pedersen_commit(c,a,b,v,g))
#undef secp256k1_pedersen_blind_generator_blind_sum
GATED(secp256k1_pedersen_blind_generator_blind_sum, (const void *c, const u64 *v, const unsigned char *const *g, unsigned char *const *b, size_t n, size_t i), r_pedersen_blind_generator_blind_sum(c,v,g,b,n,i))
#undef secp256k1_rangeproof_sign
GATED(secp256k1_rangeproof_sign, (const void *ctx, unsigned char *proof, size_t *plen, u64 min_value, const unsigned char *com, const unsigned char *blind, const unsigned char *nonce, int exp, int min_bits, u64 value, const unsigned char *message, size_t msg_len, const unsigned char *extra, size_t extra_len, const unsigned char *gen), r_rangeproof_sign(ctx,proof,plen,min_value,com,blind,nonce,exp,min_bits,value,message,msg_len,extra,extra_len,gen))
#undef secp256k1_rangeproof_info
GATED(secp256k1_rangeproof_info, (const void *c, int *e, int *m, u64 *a, u64 *b, const unsigned char *p, size_t l), r_rangeproof_info(c,e,m,a,b,p,l))
#undef secp256k1_rangeproof_rewind
GATED(secp256k1_rangeproof_rewind, (const void *ctx, unsigned char *blind_out, u64 *value_out, unsigned char *msg, size_t *outlen, const unsigned char *nonce, u64 *minv, u64 *maxv, const unsigned char *com, const unsigned char *proof, size_t plen, const unsigned char *extra, size_t extra_len, const unsigned char *gen), r_rangeproof_rewind(ctx,blind_out,value_out,msg,outlen,nonce,minv,maxv,com,proof,plen,extra,extra_len,gen))
#undef secp256k1_surjectionproof_allocate_initialized
GATED(secp256k1_surjectionproof_allocate_initialized, (const void *ctx, surj **out, size_t *input_index, const unsigned char *tags, size_t n, size_t use, const unsigned char *otag, size_t max_iter, const unsigned char *seed), r_surjectionproof_allocate_initialized(ctx,out,input_index,tags,n,use,otag,max_iter,seed))
#undef secp256k1_surjectionproof_generate
GATED(secp256k1_surjectionproof_generate, (const void *c, surj *p, const unsigned char *t, size_t n, const unsigned char *o, size_t i, const unsigned char *k, const unsigned char *l), r_surjectionproof_generate(c,p,t,n,o,i,k,l))
#undef secp256k1_surjectionproof_verify
GATED(secp256k1_surjectionproof_verify, (const void *c, const surj *p, const unsigned char *t, size_t n, const unsigned char *o), r_surjectionproof_verify(c,p,t,n,o))
#undef secp256k1_surjectionproof_serialize
GATED(secp256k1_surjectionproof_serialize, (const void *c, unsigned char *o, size_t *l, const surj *p), r_surjectionproof_serialize(c,o,l,p))
static int n_ec_seckey_verify(const void *c, const unsigned char *a) {
    static int (*f_)(const void *c, const unsigned char *a);
    if (!f_) f_=dlsym(RTLD_NEXT,"secp256k1_ec_seckey_verify");
    return f_(c,a);
}
GATED(secp256k1_ec_seckey_verify, (const void *c, const unsigned char *a), n_ec_seckey_verify(c,a))
static int n_ec_pubkey_create(const void *c, void *a, const unsigned char *b) {
    static int (*f_)(const void *c, void *a, const unsigned char *b);
    if (!f_) f_=dlsym(RTLD_NEXT,"secp256k1_ec_pubkey_create");
    return f_(c,a,b);
}
GATED(secp256k1_ec_pubkey_create, (const void *c, void *a, const unsigned char *b), n_ec_pubkey_create(c,a,b))
static int n_ec_pubkey_parse(const void *c, void *a, const unsigned char *b, size_t l) {
    static int (*f_)(const void *c, void *a, const unsigned char *b, size_t l);
    if (!f_) f_=dlsym(RTLD_NEXT,"secp256k1_ec_pubkey_parse");
    return f_(c,a,b,l);
}
GATED(secp256k1_ec_pubkey_parse, (const void *c, void *a, const unsigned char *b, size_t l), n_ec_pubkey_parse(c,a,b,l))
static int n_ecdh(const void *c, unsigned char *o, const void *p, const unsigned char *s, void *f, void *d) {
    static int (*f_)(const void *c, unsigned char *o, const void *p, const unsigned char *s, void *f, void *d);
    if (!f_) f_=dlsym(RTLD_NEXT,"secp256k1_ecdh");
    return f_(c,o,p,s,f,d);
}
GATED(secp256k1_ecdh, (const void *c, unsigned char *o, const void *p, const unsigned char *s, void *f, void *d), n_ecdh(c,o,p,s,f,d))
