/*
 * Workload driver: executes scripted calls of the real library and logs every
 * observable effect (return codes, output buffers, object state).
 *
 * usage: drv CASES OUT [cpu_limit_s] [threads [group, or -1: threads in step]]
 *
 * CASES holds one case per line:  <id> <cmd> <args..> ; <cmd> <args..> ; ...
 * OUT gets one line per case:     <id> <result> | <result> | ...
 *
 * The driver contains no oracle; the judging is done offline on OUT.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unwind.h>
#include <time.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <sys/mman.h>

#include <cry/mpi.h>
#include <cry/ecp.h>
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/cbc.h>
#include <cry/ctr.h>
#include <cry/cfb.h>
#include <cry/gcm.h>
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/hmac.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
#include <cry/utils.h>
#include <cry/base64.h>
#include <cry/hill.h>
#include <cry/affine.h>
#include <cry/memxor.h>
#include <cry/prng.h>

#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  define MSAN 1
#  include <sanitizer/msan_interface.h>
# endif
#endif
#ifndef MSAN
# define MSAN 0
#endif

/* ------------------------------------------------------------------ */
/* Allocation interposition (link with --wrap)                          */
/* ------------------------------------------------------------------ */

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

struct hdr { size_t size; size_t magic; };
#define HDR   ((size_t)sizeof(struct hdr))
#define MAGIC 0x5ca1ab1e0ddba11ULL

static __thread int a_on;           /* interposition accounting active */
static __thread long a_live;        /* live blocks */
static __thread long a_count;       /* allocations since the last reset */
static __thread long a_fail = -1;   /* fail this one (0 based) */
static __thread int a_fail_all;     /* ... and all after it */
static __thread long a_failed;      /* how many were refused */
static __thread unsigned char a_fill = 0xA5;
static __thread long a_badfree;
static __thread int a_track;        /* check that a needle is not left in freed memory */

/*
 * Distinct pairs of consecutive frames in the call stacks of allocations, to
 * place faults below every call site however often each is passed.
 */
#define SITES 4096
#define SITE_DEPTH 40
static __thread int s_on;
static __thread int s_num;
static __thread struct site { uint64_t h; long first, last; } *s_tab;

struct walk { uint64_t prev; int n; long k; };

static _Unwind_Reason_Code walk_frame(struct _Unwind_Context *c, void *arg)
{
    struct walk *w = arg;
    uint64_t ip = (uint64_t)_Unwind_GetIP(c);
    uint64_t h = (w->prev * 0x9E3779B97F4A7C15ULL) ^ ip;
    int i;

    w->prev = ip;
    for (i = 0; i < s_num && s_tab[i].h != h; i++)
        ;
    if (i == s_num) {
        if (s_num == SITES)
            return _URC_END_OF_STACK;
        s_tab[s_num].h = h;
        s_tab[s_num++].first = w->k;
    }
    s_tab[i].last = w->k;
    return ++w->n < SITE_DEPTH ? _URC_NO_REASON : _URC_END_OF_STACK;
}

static void site_note(long k)
{
    struct walk w = { 0, 0, k };
    int on = a_on;

    a_on = 0;
    _Unwind_Backtrace(walk_frame, &w);
    a_on = on;
}

static int refuse(void)
{
    long k = a_count++;
    if (s_on)
        site_note(k);
    if (a_fail >= 0 && (k == a_fail || (a_fail_all && k > a_fail))) {
        a_failed++;
        return 1;
    }
    return 0;
}

/*
 * Blocks are exact-size real allocations (so that red zones are adjacent); the
 * size is remembered in a small side table keyed by address.
 */
#define TAB (1u << 16)
/* open addressing, per thread */
static __thread struct ent { void *p; size_t n; } *ttab;
static __thread size_t tused;

static void tab_put(void *p, size_t n)
{
    size_t i;
    if (ttab == NULL)
        ttab = __real_calloc(TAB, sizeof(*ttab));
    i = (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> 48;
    while (ttab[i & (TAB-1)].p != NULL && ttab[i & (TAB-1)].p != (void *)1)
        i++;
    ttab[i & (TAB-1)].p = p;
    ttab[i & (TAB-1)].n = n;
    tused++;
}

static struct ent *tab_get(void *p)
{
    size_t i, k;
    if (ttab == NULL)
        return NULL;
    i = (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> 48;
    for (k = 0; k < TAB && ttab[i & (TAB-1)].p != NULL; k++, i++)
        if (ttab[i & (TAB-1)].p == p)
            return &ttab[i & (TAB-1)];
    return NULL;
}

void *__wrap_malloc(size_t n)
{
    void *p;
    if (!a_on)
        return __real_malloc(n);
    if (refuse())
        return NULL;
    p = __real_malloc(n);
    if (p != NULL) {
        if (!MSAN)
            memset(p, a_fill, n);
        a_live++;
        tab_put(p, n);
    }
    return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
    void *p;
    if (!a_on)
        return __real_calloc(a, b);
    if (refuse())
        return NULL;
    p = __real_calloc(a, b);
    if (p != NULL) {
        a_live++;
        tab_put(p, a*b);
    }
    return p;
}

void __wrap_free(void *p)
{
    struct ent *e;
    if (a_on && p != NULL && (e = tab_get(p)) != NULL) {
        if (!MSAN)
            memset(p, 0xDD, e->n);
        e->p = (void *)1;
        a_live--;
        tused--;
    }
    __real_free(p);
}

void *__wrap_realloc(void *q, size_t n)
{
    void *p;
    struct ent *e;
    if (!a_on)
        return __real_realloc(q, n);
    if (q == NULL)
        return __wrap_malloc(n);
    if (refuse())
        return NULL;
    if ((e = tab_get(q)) == NULL)
        return __real_realloc(q, n);
    /* always moves */
    p = __real_malloc(n);
    if (p == NULL)
        return NULL;
    if (!MSAN)
        memset(p, a_fill, n);
    memcpy(p, q, e->n < n ? e->n : n);
    if (!MSAN)
        memset(q, 0xDD, e->n);
    e->p = (void *)1;
    __real_free(q);
    tab_put(p, n);
    return p;
}

/* ------------------------------------------------------------------ */
/* Everything one case owns; the cases of a group are interleaved       */
/* ------------------------------------------------------------------ */

struct out { char *p; size_t n, cap; };

#define NM 24
#define NP 8
#define NG 3
#define NC 6

enum ctype { C_NONE, C_AES, C_DES, C_CBC, C_CTR, C_CFB, C_GCM, C_ARC4, C_TRIV,
    C_MD5, C_SHA1, C_SHA256, C_SHA512, C_SHA384, C_HMAC, C_CMAC, C_CRC16, C_CRC32,
    C_HILL, C_AFF, C_RSA, C_DSA, C_ECDSA, C_ELG, C_DH, C_ECDH };

union hctx { cry_md5_ctx md5; cry_sha1_ctx sha1; cry_sha256_ctx sha256;
    cry_sha512_ctx sha512; };

struct slot {
    enum ctype t;
    void *u;                /* exact-size context object */
    size_t usz;
    void *sub;              /* cipher or hash context below a mode */
    size_t subsz;
    enum ctype subt;
};

struct env {
    cry_mpi M_[NM]; int Mi_[NM];
    cry_ecp P_[NP]; int Pi_[NP];
    cry_ecp_grp G_[NG]; int Gi_[NG];
    struct slot S_[NC];
    struct out O_;
    char id_[32];
    char *tokp_;
    size_t mis_;
    int first_, done_;
    unsigned char *rnd_buf_;
    size_t rnd_len_, rnd_pos_;
    int gen_;
    unsigned long gens_;
};
static __thread struct env E0;
static __thread struct env *E;
static __thread int grouped;        /* several cases in progress */
static unsigned long seq;           /* commands started by all threads (relaxed) */
static __thread unsigned long n_cmd, n_over;    /* own commands, and those during which another started */

#define M  (E->M_)
#define Mi (E->Mi_)
#define P  (E->P_)
#define Pi (E->Pi_)
#define G  (E->G_)
#define Gi (E->Gi_)
#define S  (E->S_)
#define O  (E->O_)
#define cur_id   (E->id_)
#define tokp     (E->tokp_)
#define misalign (E->mis_)
#define rnd_buf  (E->rnd_buf_)
#define rnd_len  (E->rnd_len_)
#define rnd_pos  (E->rnd_pos_)

/* ------------------------------------------------------------------ */
/* Random stream interposition                                          */
/* ------------------------------------------------------------------ */

int __real_cry_prng_aes_rand(unsigned char *buf, size_t n);

int __wrap_cry_prng_aes_rand(unsigned char *buf, size_t n)
{
    while (n > 0 && rnd_pos < rnd_len) {
        *buf++ = rnd_buf[rnd_pos++];
        n--;
    }
    if (n == 0)
        return 0;
    if (!E->gen_)
        return __real_cry_prng_aes_rand(buf, n);
    while (n-- > 0) {           /* the case's own stream */
        unsigned long z = (E->gens_ += 0x9E3779B97F4A7C15UL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL;
        *buf++ = (unsigned char)(z >> 40);
    }
    return 0;
}


/* ------------------------------------------------------------------ */
/* Output                                                               */
/* ------------------------------------------------------------------ */

static __thread int out_fd = -1;

static void o_need(size_t k)
{
    if (O.n + k + 1 > O.cap) {
        O.cap = (O.n + k + 1) * 2 + 4096;
        O.p = __real_realloc(O.p, O.cap);
    }
}

static void o_str(const char *s)
{
    size_t k = strlen(s);
    o_need(k);
    memcpy(O.p + O.n, s, k);
    O.n += k;
}

static void o_fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void o_fmt(const char *f, ...)
{
    char b[256];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    o_str(b);
}

static void o_hex(const unsigned char *d, size_t n)
{
    static const char h[] = "0123456789abcdef";
    size_t i;
#if MSAN
    if (n)
        __msan_check_mem_is_initialized(d, n);
#endif
    o_need(2*n + 1);
    if (n == 0) {
        O.p[O.n++] = '-';
        return;
    }
    for (i = 0; i < n; i++) {
        O.p[O.n++] = h[d[i] >> 4];
        O.p[O.n++] = h[d[i] & 15];
    }
}

static void o_flush(void)
{
    size_t k = 0;
    while (k < O.n) {
        ssize_t r = write(out_fd, O.p + k, O.n - k);
        if (r <= 0)
            _exit(3);
        k += (size_t)r;
    }
    O.n = 0;
}

static void die(const char *m)
{
    fprintf(stderr, "DRIVER ERROR: %s (case %s)\n", m, cur_id);
    _exit(3);
}

/* ------------------------------------------------------------------ */
/* Parsing                                                              */
/* ------------------------------------------------------------------ */

static char *tok(void)
{
    char *s;
    while (*tokp == ' ')
        tokp++;
    if (*tokp == '\0')
        return NULL;
    s = tokp;
    while (*tokp != ' ' && *tokp != '\0')
        tokp++;
    if (*tokp == ' ')
        *tokp++ = '\0';
    return s;
}

static char *need(void)
{
    char *s = tok();
    if (s == NULL || strcmp(s, ";") == 0)
        die("missing argument");
    return s;
}

static long num(void) { return strtol(need(), NULL, 0); }
static unsigned long unum(void) { return strtoul(need(), NULL, 0); }

static int hv(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    die("bad hex");
    return 0;
}

/* Exact-size heap buffer, `off` bytes of lead so that misalignment can be had */
struct buf { unsigned char *base, *p; size_t n, off; };

static struct buf b_new(size_t n, size_t off)
{
    struct buf b;
    b.base = __real_malloc(n + off ? n + off : 1);
    if (n + off == 0) {
        /* zero-length: pointer one past a 1-byte block: any access traps */
        b.p = b.base + 1;
    } else {
        b.p = b.base + off;
    }
    b.n = n;
    b.off = off;
    return b;
}

static void b_free(struct buf *b) { __real_free(b->base); b->base = NULL; }


/*
 * Data syntax: "-" empty, hex, or "~LEN:SEED" for LEN pseudo random bytes,
 * "=LEN:BYTE" for a repeated byte.
 */
static struct buf b_data(const char *s)
{
    struct buf b;
    size_t i, n;
    if (strcmp(s, "-") == 0)
        return b_new(0, misalign);
    if (*s == '~' || *s == '=') {
        char *e;
        uint64_t x;
        n = strtoul(s + 1, &e, 10);
        x = strtoull(e + 1, NULL, 10);
        b = b_new(n, misalign);
        if (*s == '=') {
            memset(b.p, (int)x, n);
        } else {
            x = x * 2654435761u + 88172645463325252ULL;
            for (i = 0; i < n; i++) {
                if ((i & 7) == 0) {
                    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                }
                b.p[i] = (unsigned char)(x >> (8 * (i & 7)));
            }
        }
        return b;
    }
    n = strlen(s);
    if (n & 1)
        die("odd hex");
    n /= 2;
    b = b_new(n, misalign);
    for (i = 0; i < n; i++)
        b.p[i] = (unsigned char)(hv(s[2*i]) << 4 | hv(s[2*i+1]));
    return b;
}

static struct buf b_arg(void) { return b_data(need()); }

/* Dirty the stack so that reads of uninitialised locals become visible */
static __attribute__((noinline)) void stack_dirty(unsigned char v)
{
    volatile unsigned char junk[6000];
    size_t i;
    for (i = 0; i < sizeof(junk); i++)
        junk[i] = v;
}

/* ------------------------------------------------------------------ */
/* State                                                                */
/* ------------------------------------------------------------------ */

/* cipher interfaces with correctly typed thunks */
static void t_aes_init(void *c) { cry_aes_init(c); }
static void t_aes_clear(void *c) { cry_aes_clear(c); }
static void t_aes_key(void *c, const unsigned char *k, size_t n) { cry_aes_key_set(c, k, n); }
static void t_aes_enc(void *c, unsigned char *d, const unsigned char *s, size_t n) { cry_aes_encrypt(c, d, s, n); }
static void t_aes_dec(void *c, unsigned char *d, const unsigned char *s, size_t n) { cry_aes_decrypt(c, d, s, n); }
static const cry_ciph_itf aes_itf = { t_aes_init, t_aes_clear, t_aes_key, t_aes_enc, t_aes_dec };
static void t_des_init(void *c) { cry_des_init(c); }
static void t_des_clear(void *c) { cry_des_clear(c); }
static void t_des_key(void *c, const unsigned char *k, size_t n) { cry_des_key_set(c, k, n); }
static void t_des_enc(void *c, unsigned char *d, const unsigned char *s, size_t n) { cry_des_encrypt(c, d, s, n); }
static void t_des_dec(void *c, unsigned char *d, const unsigned char *s, size_t n) { cry_des_decrypt(c, d, s, n); }
static const cry_ciph_itf des_itf = { t_des_init, t_des_clear, t_des_key, t_des_enc, t_des_dec };

static void t_md5_init(void *c) { cry_md5_init(c); }
static void t_md5_clear(void *c) { cry_md5_clear(c); }
static void t_md5_up(void *c, const unsigned char *d, size_t n) { cry_md5_update(c, d, n); }
static void t_md5_dig(void *c, unsigned char *o) { cry_md5_digest(c, o); }
static const cry_hash_itf md5_itf = { t_md5_init, t_md5_clear, t_md5_up, t_md5_dig };
static void t_sha1_init(void *c) { cry_sha1_init(c); }
static void t_sha1_clear(void *c) { cry_sha1_clear(c); }
static void t_sha1_up(void *c, const unsigned char *d, size_t n) { cry_sha1_update(c, d, n); }
static void t_sha1_dig(void *c, unsigned char *o) { cry_sha1_digest(c, o); }
static const cry_hash_itf sha1_itf = { t_sha1_init, t_sha1_clear, t_sha1_up, t_sha1_dig };
static void t_sha256_init(void *c) { cry_sha256_init(c); }
static void t_sha256_clear(void *c) { cry_sha256_clear(c); }
static void t_sha256_up(void *c, const unsigned char *d, size_t n) { cry_sha256_update(c, d, n); }
static void t_sha256_dig(void *c, unsigned char *o) { cry_sha256_digest(c, o); }
static const cry_hash_itf sha256_itf = { t_sha256_init, t_sha256_clear, t_sha256_up, t_sha256_dig };

/* ------------------------------------------------------------------ */
/* Integers                                                             */
/* ------------------------------------------------------------------ */

static void m_set(cry_mpi *m, const char *s, size_t slack)
{
    size_t nd, i, len;
    int sign = 0;
    if (*s == '-') { sign = 1; s++; }
    while (*s == '0') s++;
    len = strlen(s);
    nd = (len * 4 + CRY_MPI_DIGIT_BITS - 1) / CRY_MPI_DIGIT_BITS;
    m->alloc = nd + slack;
    if (m->alloc == 0)
        m->alloc = 1;
    {
        long f = a_fail;
        a_fail = -1;
        a_count--;
        m->data = __wrap_malloc(m->alloc * sizeof(cry_mpi_digit));
        a_fail = f;
    }
    m->used = nd;
    m->sign = nd ? sign : 0;
    for (i = 0; i < nd; i++)
        m->data[i] = 0;
    for (i = 0; i < len; i++) {
        size_t bit = (len - 1 - i) * 4;
        m->data[bit / CRY_MPI_DIGIT_BITS] |=
            (cry_mpi_digit)((cry_mpi_digit)hv(s[i]) << (bit % CRY_MPI_DIGIT_BITS));
    }
}

/* value as signed hex; non canonical states are flagged */
static void m_out(const cry_mpi *m)
{
    size_t i;
    int flag = 0;
#if MSAN
    __msan_check_mem_is_initialized(m, sizeof(int));
    __msan_check_mem_is_initialized(&m->used, sizeof(*m) - offsetof(cry_mpi, used));
    if (m->used)
        __msan_check_mem_is_initialized(m->data, m->used * sizeof(cry_mpi_digit));
#endif
    if (m->sign != 0 && m->sign != 1) { o_fmt("!sign%d:", m->sign); flag = 1; }
    if (m->used > 0 && m->data == NULL) { o_str("!null"); return; }
    if (m->alloc != 0 && m->used > m->alloc) { o_str("!used>alloc"); return; }
    if (m->used > 0 && m->data[m->used - 1] == 0) { o_str("!lead0:"); flag = 1; }
    if (m->used == 0 && m->sign) { o_str("!neg0:"); flag = 1; }
    (void)flag;
    if (m->used == 0) { o_str("0"); return; }
    if (m->sign) o_str("-");
    for (i = m->used; i-- > 0;) {
        if (i == m->used - 1)
            o_fmt("%lx", (unsigned long)m->data[i]);
        else
            o_fmt("%0*lx", (int)(2*CRY_MPI_DIGIT_BYTES), (unsigned long)m->data[i]);
    }
}

static cry_mpi *m_reg(int i)
{
    if (i < 0 || i >= NM)
        die("mpi register");
    if (!Mi[i]) {
        long f = a_fail;
        a_fail = -1;
        a_count--;
        if (cry_mpi_init(&M[i]) != 0)
            die("init");
        a_fail = f;
        Mi[i] = 1;
    }
    return &M[i];
}

static cry_mpi *m_arg(void)
{
    char *s = need();
    if (*s == 'n')
        return NULL;
    return m_reg(atoi(s));
}

static void m_assign(cry_mpi *d, const cry_mpi *s)
{
    size_t i;
    cry_mpi_digit *p;
    long f = a_fail;
    a_fail = -1;
    a_count--;
    p = __wrap_malloc((s->used + 1) * sizeof(*p));
    a_fail = f;
    for (i = 0; i < s->used; i++)
        p[i] = s->data[i];
    if (d->data != NULL && d->alloc != 0)
        __wrap_free(d->data);
    d->data = p;
    d->alloc = s->used + 1;
    d->used = s->used;
    d->sign = s->sign;
}

typedef int (*m3_f)(cry_mpi *, const cry_mpi *, const cry_mpi *);
typedef int (*m2_f)(cry_mpi *, const cry_mpi *);

static const struct { const char *n; m3_f f; } m3[] = {
    { "add", cry_mpi_add }, { "sub", cry_mpi_sub }, { "mul", cry_mpi_mul },
    { "add_abs", cry_mpi_add_abs }, { "sub_abs", cry_mpi_sub_abs },
    { "mul_abs", cry_mpi_mul_abs }, { "mul_base", cry_mpi_mul_baseline },
    { "mul_comba", cry_mpi_mul_comba }, { "mul_kara", cry_mpi_mul_karatsuba },
    { "mul_toom", cry_mpi_mul_toom3 }, { "gcd", cry_mpi_gcd },
    { "lcm", cry_mpi_lcm }, { "inv", cry_mpi_inv }, { "exp", cry_mpi_exp },
    { NULL, NULL } };
static const struct { const char *n; m2_f f; } m2[] = {
    { "abs", cry_mpi_abs }, { "sqr", cry_mpi_sqr }, { "sqr_base", cry_mpi_sqr_baseline },
    { "sqr_comba", cry_mpi_sqr_comba }, { "sqr_kara", cry_mpi_sqr_karatsuba },
    { "sqrt", cry_mpi_sqrt }, { "copy", cry_mpi_copy }, { NULL, NULL } };

/* ------------------------------------------------------------------ */

static int all_zero(const void *p, size_t n)
{
    const unsigned char *c = p;
#if MSAN
    __msan_check_mem_is_initialized(p, n);
#endif
    while (n--)
        if (*c++)
            return 0;
    return 1;
}

static struct slot *slot(void)
{
    long i = num();
    if (i < 0 || i >= NC)
        die("slot");
    return &S[i];
}

static void *obj(size_t n)
{
    void *p = __real_malloc(n);
    if (!MSAN)
        memset(p, a_fill, n);
    return p;
}

static void slot_free(struct slot *s, int lib_clear)
{
    if (s->t == C_NONE)
        return;
    if (lib_clear) {
        switch (s->t) {
        case C_RSA: cry_rsa_clear(s->u); break;
        case C_DSA: cry_dsa_clear(s->u); break;
        case C_ECDSA: cry_ecdsa_clear(s->u); break;
        case C_ELG: cry_elgamal_clear(s->u); break;
        case C_DH: cry_dh_clear(s->u); break;
        case C_ECDH: cry_ecdh_clear(s->u); break;
        default: break;
        }
    }
    __real_free(s->u);
    if (s->sub)
        __real_free(s->sub);
    memset(s, 0, sizeof(*s));
}

static const struct { const char *n; enum ctype t; size_t sz; } ct[] = {
    { "aes", C_AES, sizeof(cry_aes_ctx) }, { "des", C_DES, sizeof(cry_des_ctx) },
    { "cbc", C_CBC, sizeof(cry_cbc_ctx) }, { "ctr", C_CTR, sizeof(cry_ctr_ctx) },
    { "cfb", C_CFB, sizeof(cry_cfb_ctx) }, { "gcm", C_GCM, sizeof(cry_gcm_ctx) },
    { "arc4", C_ARC4, sizeof(cry_arc4_ctx) }, { "triv", C_TRIV, sizeof(cry_trivium_ctx) },
    { "md5", C_MD5, sizeof(cry_md5_ctx) }, { "sha1", C_SHA1, sizeof(cry_sha1_ctx) },
    { "sha256", C_SHA256, sizeof(cry_sha256_ctx) }, { "sha512", C_SHA512, sizeof(cry_sha512_ctx) },
    { "sha384", C_SHA384, sizeof(cry_sha512_ctx) }, { "hmac", C_HMAC, sizeof(cry_hmac_ctx) },
    { "cmac", C_CMAC, sizeof(cry_cmac_ctx) }, { "crc16", C_CRC16, sizeof(cry_crc16_ctx) },
    { "crc32", C_CRC32, sizeof(cry_crc32_ctx) }, { "hill", C_HILL, sizeof(cry_hill_ctx) },
    { "aff", C_AFF, sizeof(cry_affine_ctx) }, { "rsa", C_RSA, sizeof(cry_rsa_ctx) },
    { "dsa", C_DSA, sizeof(cry_dsa_ctx) }, { "ecdsa", C_ECDSA, sizeof(cry_ecdsa_ctx) },
    { "elg", C_ELG, sizeof(cry_elgamal_ctx) }, { "dh", C_DH, sizeof(cry_dh_ctx) },
    { "ecdh", C_ECDH, sizeof(cry_ecdh_ctx) }, { NULL, C_NONE, 0 } };

static int ct_find(const char *n)
{
    int i;
    for (i = 0; ct[i].n; i++)
        if (strcmp(ct[i].n, n) == 0)
            return i;
    die("context type");
    return -1;
}

/* (re)use or create the object of a slot */
static void slot_obj(struct slot *s, const char *type)
{
    int k = ct_find(type);
    if (s->t != ct[k].t) {
        slot_free(s, 1);
        s->t = ct[k].t;
        s->usz = ct[k].sz;
        s->u = obj(s->usz);
    }
}

static void slot_sub(struct slot *s, const char *type)
{
    int k = ct_find(type);
    if (s->sub == NULL || s->subt != ct[k].t) {
        if (s->sub)
            __real_free(s->sub);
        s->subt = ct[k].t;
        s->subsz = ct[k].sz;
        s->sub = obj(s->subsz);
    }
}

static void mpi_fields_zero(const cry_mpi *m)
{
    o_str((m->sign == 0 && m->used == 0 && m->alloc == 0 && m->data == NULL) ? "z" : "X");
}

typedef void (*crypt_f)(void *, unsigned char *, const unsigned char *, size_t);

static void crypt_call(void *u, crypt_f f, int inplace)
{
    struct buf in = b_arg(), out, chk;
    size_t i;
    if (inplace) {
        f(u, in.p, in.p, in.n);
        o_hex(in.p, in.n);
        b_free(&in);
        return;
    }
    out = b_new(in.n, misalign);
    if (!MSAN)
        memset(out.base, 0x5C, out.n + out.off);
    chk = b_new(in.n, 0);
    memcpy(chk.p, in.p, in.n);
    f(u, out.p, in.p, in.n);
    o_hex(out.p, out.n);
    if (in.n && memcmp(chk.p, in.p, in.n) != 0)
        o_str("!src-modified");
    if (!MSAN)
        for (i = 0; i < out.off; i++)
            if (out.base[i] != 0x5C) { o_str("!before-dst"); break; }
    b_free(&in);
    b_free(&out);
    b_free(&chk);
}

#define THUNK(name, type, call) \
    static void name(void *c, unsigned char *d, const unsigned char *s, size_t n) \
    { type *x = c; call(x, d, s, n); }
THUNK(k_cbc_e, cry_cbc_ctx, cry_cbc_encrypt)
THUNK(k_cbc_d, cry_cbc_ctx, cry_cbc_decrypt)
THUNK(k_ctr_e, cry_ctr_ctx, cry_ctr_encrypt)
THUNK(k_ctr_d, cry_ctr_ctx, cry_ctr_decrypt)
THUNK(k_cfb_e, cry_cfb_ctx, cry_cfb_encrypt)
THUNK(k_cfb_d, cry_cfb_ctx, cry_cfb_decrypt)
THUNK(k_cfb8_e, cry_cfb_ctx, cry_cfb8_encrypt)
THUNK(k_cfb8_d, cry_cfb_ctx, cry_cfb8_decrypt)
THUNK(k_gcm_e, cry_gcm_ctx, cry_gcm_encrypt)
THUNK(k_gcm_d, cry_gcm_ctx, cry_gcm_decrypt)
THUNK(k_arc4_e, cry_arc4_ctx, cry_arc4_encrypt)
THUNK(k_arc4_d, cry_arc4_ctx, cry_arc4_decrypt)
THUNK(k_triv_e, cry_trivium_ctx, cry_trivium_encrypt)
THUNK(k_triv_d, cry_trivium_ctx, cry_trivium_decrypt)
THUNK(k_hill_e, cry_hill_ctx, cry_hill_encrypt)
THUNK(k_hill_d, cry_hill_ctx, cry_hill_decrypt)
THUNK(k_aff_e, cry_affine_ctx, cry_affine_encrypt)
THUNK(k_aff_d, cry_affine_ctx, cry_affine_decrypt)

static crypt_f crypt_fn(struct slot *s, int dec, int eight)
{
    switch (s->t) {
    case C_AES: return dec ? t_aes_dec : t_aes_enc;
    case C_DES: return dec ? t_des_dec : t_des_enc;
    case C_CBC: return dec ? k_cbc_d : k_cbc_e;
    case C_CTR: return dec ? k_ctr_d : k_ctr_e;
    case C_CFB: return eight ? (dec ? k_cfb8_d : k_cfb8_e) : (dec ? k_cfb_d : k_cfb_e);
    case C_GCM: return dec ? k_gcm_d : k_gcm_e;
    case C_ARC4: return dec ? k_arc4_d : k_arc4_e;
    case C_TRIV: return dec ? k_triv_d : k_triv_e;
    case C_HILL: return dec ? k_hill_d : k_hill_e;
    case C_AFF: return dec ? k_aff_d : k_aff_e;
    default: die("crypt type");
    }
    return NULL;
}

static void upd_any(struct slot *s, const unsigned char *p, size_t n)
{
    switch (s->t) {
    case C_MD5: cry_md5_update(s->u, p, n); break;
    case C_SHA1: cry_sha1_update(s->u, p, n); break;
    case C_SHA256: cry_sha256_update(s->u, p, n); break;
    case C_SHA512: case C_SHA384: cry_sha512_update(s->u, p, n); break;
    case C_HMAC: cry_hmac_update(s->u, p, n); break;
    case C_CMAC: cry_cmac_update(s->u, p, n); break;
    case C_GCM: cry_gcm_update(s->u, p, n); break;
    case C_CRC16: cry_crc16_update(s->u, p, n); break;
    case C_CRC32: cry_crc32_update(s->u, p, n); break;
    default: die("update type");
    }
}

/* A read-only area of n bytes: one megabyte of pseudo random data over and over */
#define MEG ((size_t)1 << 20)
static unsigned char *big_src(size_t n, unsigned long long seed)
{
    size_t k, m = (n + MEG - 1) / MEG + 1;
    int fd = memfd_create("long", 0);
    unsigned char *base, *w;
    unsigned long long x = seed * 2862933555777941757ull + 3037000493ull;

    if (fd < 0 || ftruncate(fd, (off_t)MEG) != 0) die("memfd");
    w = mmap(NULL, MEG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    base = mmap(NULL, m * MEG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (w == MAP_FAILED || base == MAP_FAILED) die("mmap");
    for (k = 0; k < MEG; k++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        w[k] = (unsigned char)(x >> 24);
    }
    munmap(w, MEG);
    for (k = 0; k < m; k++)
        if (mmap(base + k * MEG, MEG, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap2");
    close(fd);
    return base;
}

static void big_free(unsigned char *p, size_t n)
{
    munmap(p, ((n + MEG - 1) / MEG + 1) * MEG);
}

static unsigned char *big_dst(size_t n)
{
    unsigned char *p = mmap(NULL, ((n + MEG - 1) / MEG + 1) * MEG, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap3");
    return p;
}

static size_t piece(unsigned long long *x, size_t left)
{
    size_t n;
    *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17;
    n = 64 * (1 + (size_t)((*x >> 20) & 31));
    return n < left ? n : left;
}

/* long A B OP LEN SEED: one call on A against short calls on B, same data */
static void do_long(void)
{
    struct slot *a = slot(), *b = slot();
    const char *op = tok();
    size_t n = unum(), i, k;
    unsigned long long seed = (unsigned long long)unum(), x = seed + 88172645463325252ull;
    unsigned char *src = big_src(n, seed), *dst, tmp[64 * 32 + 64];
    crypt_f f, g;
    int inplace;

    if (strcmp(op, "up") == 0) {
        upd_any(a, src, n);
        for (i = 0; i < n; i += k) {
            k = piece(&x, n - i);
            upd_any(b, src + i, k);
        }
        big_free(src, n);
        o_str(".");
        return;
    }
    f = crypt_fn(a, op[0] == 'd', op[2] == '8');
    g = crypt_fn(b, op[0] == 'd', op[2] == '8');
    inplace = op[1] == 'i';
    dst = big_dst(n);
    if (inplace) {
        memcpy(dst, src, n);
        f(a->u, dst, dst, n);
    } else {
        f(a->u, dst, src, n);
    }
    for (i = 0; i < n; i += k) {
        k = piece(&x, n - i);
        if (x & 64) {
            g(b->u, tmp, src + i, k);
        } else {
            memcpy(tmp, src + i, k);
            g(b->u, tmp, tmp, k);
        }
        if (memcmp(tmp, dst + i, k) != 0)
            break;
    }
    if (i < n)
        o_fmt("differs near %lu", (unsigned long)i);
    else
        o_str(".");
    big_free(src, n);
    big_free(dst, n);
}

static size_t dig_len(enum ctype t)
{
    switch (t) {
    case C_MD5: return 16;
    case C_SHA1: return 20;
    case C_SHA256: return 32;
    case C_SHA384: return 48;
    case C_SHA512: return 64;
    default: die("digest type");
    }
    return 0;
}

static void p_out(const cry_ecp *p)
{
    m_out(&p->x); o_str(",");
    m_out(&p->y); o_str(",");
    m_out(&p->z);
}

static cry_ecp *p_reg(int i)
{
    if (i < 0 || i >= NP)
        die("point register");
    if (!Pi[i]) {
        long f = a_fail, c = a_count;
        a_fail = -1;
        if (cry_ecp_init(&P[i]) != 0)
            die("init");
        a_fail = f;
        a_count = c;
        Pi[i] = 1;
    }
    return &P[i];
}

static cry_ecp_grp *g_reg(int i)
{
    if (i < 0 || i >= NG || !Gi[i])
        die("group register");
    return &G[i];
}

static void m_replace(cry_mpi *m, const char *s)
{
    if (m->data != NULL && m->alloc != 0)
        __wrap_free(m->data);
    m_set(m, s, 1);
}

static void case_begin(void)
{
    s_on = 0;
    a_fail = -1;
    a_fail_all = 0;
    a_failed = 0;
    a_count = 0;
    if (!grouped)
        a_live = 0;
    a_badfree = 0;
    a_fill = 0xA5;
    misalign = 0;
    rnd_len = rnd_pos = 0;
    E->gen_ = 0;
}

static void case_end(void)
{
    int i;
    a_fail = -1;
    for (i = 0; i < NM; i++)
        if (Mi[i]) { cry_mpi_clear(&M[i]); Mi[i] = 0; }
    for (i = 0; i < NP; i++)
        if (Pi[i]) { cry_ecp_clear(&P[i]); Pi[i] = 0; }
    for (i = 0; i < NG; i++)
        if (Gi[i]) { cry_ecp_grp_clear(&G[i]); Gi[i] = 0; }
    for (i = 0; i < NC; i++)
        slot_free(&S[i], 1);
    if (rnd_buf) { __real_free(rnd_buf); rnd_buf = NULL; }
    rnd_len = rnd_pos = 0;
    if (grouped)
        return;
    if (a_live != 0)
        o_fmt(" | !leak%ld", a_live);
    if (ttab != NULL && a_live != 0) {
        memset(ttab, 0, TAB * sizeof(*ttab));
        tused = 0;
    }
}

/* ------------------------------------------------------------------ */
/* Commands                                                             */
/* ------------------------------------------------------------------ */

static int do_mpi(const char *c)
{
    int i;
    cry_mpi *a, *b, *r, *q;
    struct buf d;

    for (i = 0; m3[i].n; i++) {
        if (strcmp(m3[i].n, c) == 0) {
            r = m_arg(); a = m_arg(); b = m_arg();
            stack_dirty(a_fill);
            o_fmt("%d", m3[i].f(r, a, b));
            return 1;
        }
    }
    for (i = 0; m2[i].n; i++) {
        if (strcmp(m2[i].n, c) == 0) {
            r = m_arg(); a = m_arg();
            stack_dirty(a_fill);
            o_fmt("%d", m2[i].f(r, a));
            return 1;
        }
    }
    if (strcmp(c, "ms") == 0) {              /* ms REG HEX SLACK */
        int k = (int)num();
        char *s = need();
        size_t slack = unum();
        if (k < 0 || k >= NM) die("reg");
        if (Mi[k]) cry_mpi_clear(&M[k]);
        m_set(&M[k], s, slack);
        Mi[k] = 1;
        o_str(".");
    } else if (strcmp(c, "mg") == 0) {
        m_out(m_arg());
    } else if (strcmp(c, "mclear") == 0) {   /* clear twice, show fields */
        a = m_arg();
        cry_mpi_clear(a);
        mpi_fields_zero(a);
        cry_mpi_clear(a);
        mpi_fields_zero(a);
        Mi[a - M] = 0;
    } else if (strcmp(c, "minit") == 0) {    /* minit REG kind arg.. -> ret */
        int k = (int)num();
        char *kind = need();
        int ret;
        if (Mi[k]) { cry_mpi_clear(&M[k]); Mi[k] = 0; }
        memset(&M[k], 0xEE, sizeof(M[k]));
        if (strcmp(kind, "plain") == 0) {
            ret = cry_mpi_init(&M[k]);
        } else if (strcmp(kind, "size") == 0) {
            ret = cry_mpi_init_size(&M[k], unum());
        } else if (strcmp(kind, "int") == 0) {
            ret = cry_mpi_init_int(&M[k], num());
        } else if (strcmp(kind, "bin") == 0) {
            d = b_arg();
            ret = cry_mpi_init_bin(&M[k], d.p, d.n);
            b_free(&d);
        } else if (strcmp(kind, "str") == 0) {
            unsigned int rx = (unsigned int)unum();
            struct buf z;
            d = b_arg();
            z = b_new(d.n + 1, 0);
            memcpy(z.p, d.p, d.n);
            z.p[d.n] = 0;
            ret = cry_mpi_init_str(&M[k], rx, (char *)z.p);
            b_free(&d); b_free(&z);
        } else if (strcmp(kind, "copy") == 0) {
            ret = cry_mpi_init_copy(&M[k], m_arg());
        } else {
            die("minit");
            return 1;
        }
        if (ret == 0)
            Mi[k] = 1;
        o_fmt("%d", ret);
    } else if (strcmp(c, "mlist") == 0) {    /* init_list over 6 then values then clear_list */
        cry_mpi x[6];
        int ret;
        memset(x, 0xEE, sizeof(x));
        ret = cry_mpi_init_list(&x[0], &x[1], &x[2], &x[3], &x[4], &x[5], (cry_mpi *)NULL);
        o_fmt("%d", ret);
        if (ret == 0) {
            for (i = 0; i < 6; i++) { o_str(","); m_out(&x[i]); }
            cry_mpi_clear_list(&x[0], &x[1], &x[2], &x[3], &x[4], &x[5], (cry_mpi *)NULL);
        }
    } else if (strcmp(c, "div") == 0 || strcmp(c, "div_abs") == 0) {
        q = m_arg(); r = m_arg(); a = m_arg(); b = m_arg();
        stack_dirty(a_fill);
        o_fmt("%d", (c[3] ? cry_mpi_div_abs : cry_mpi_div)(q, r, a, b));
    } else if (strcmp(c, "mod") == 0) {
        r = m_arg(); a = m_arg(); b = m_arg();
        o_fmt("%d", cry_mpi_mod(r, a, b));
    } else if (strcmp(c, "shl") == 0 || strcmp(c, "shr") == 0) {
        size_t n;
        r = m_arg(); a = m_arg(); n = unum();
        o_fmt("%d", (c[2] == 'l' ? cry_mpi_shl : cry_mpi_shr)(r, a, n));
    } else if (strcmp(c, "modexp") == 0) {
        r = m_arg(); a = m_arg(); b = m_arg(); q = m_arg();
        stack_dirty(a_fill);
        o_fmt("%d", cry_mpi_mod_exp(r, a, b, q));
    } else if (strcmp(c, "mul_dig") == 0) {
        unsigned long v;
        r = m_arg(); a = m_arg(); v = unum();
        o_fmt("%d", cry_mpi_mul_dig(r, a, (cry_mpi_digit)v));
    } else if (strcmp(c, "cmp") == 0) {
        a = m_arg(); b = m_arg();
        o_fmt("%d", cry_mpi_cmp(a, b));
    } else if (strcmp(c, "cmp_abs") == 0) {
        a = m_arg(); b = m_arg();
        o_fmt("%d", cry_mpi_cmp_abs(a, b));
    } else if (strcmp(c, "bits") == 0) {
        a = m_arg();
        o_fmt("%zu,%zu,%d,%d,%d,%d,%d", cry_mpi_count_bits(a), cry_mpi_count_bytes(a),
              !!cry_mpi_is_zero(a), !!cry_mpi_is_odd(a), !!cry_mpi_is_even(a),
              !!cry_mpi_is_pos(a), !!cry_mpi_is_neg(a));
    } else if (strcmp(c, "swap") == 0) {
        a = m_arg(); b = m_arg();
        cry_mpi_swap(a, b);
        o_str(".");
    } else if (strcmp(c, "seti") == 0) {
        a = m_arg();
        o_fmt("%d", cry_mpi_set_int(a, num()));
    } else if (strcmp(c, "geti") == 0) {
        long v = 0x1234567;
        a = m_arg();
        i = cry_mpi_get_int(a, &v);
        o_fmt("%d,%ld", i, v);
    } else if (strcmp(c, "lbin") == 0) {
        a = m_arg();
        d = b_arg();
        o_fmt("%d", cry_mpi_load_bin(a, d.p, d.n));
        b_free(&d);
    } else if (strcmp(c, "sbin") == 0) {     /* sbin REG SIZE PAD */
        size_t n;
        int pad, ret;
        a = m_arg(); n = unum(); pad = (int)num();
        d = b_new(n, misalign);
        memset(d.base, 0x5C, d.n + d.off);
        ret = cry_mpi_store_bin(a, d.p, n, pad);
        o_fmt("%d,", ret);
        o_hex(d.p, d.n);
        b_free(&d);
    } else if (strcmp(c, "lstr") == 0) {     /* lstr REG RADIX ASCIIHEX */
        unsigned int rx;
        struct buf z;
        a = m_arg(); rx = (unsigned int)unum();
        d = b_arg();
        z = b_new(d.n + 1, 0);
        memcpy(z.p, d.p, d.n);
        z.p[d.n] = 0;
        o_fmt("%d", cry_mpi_load_str(a, rx, (char *)z.p));
        b_free(&d); b_free(&z);
    } else if (strcmp(c, "sstr") == 0) {     /* sstr REG RADIX BUFSIZE */
        unsigned int rx;
        size_t n;
        int ret;
        a = m_arg(); rx = (unsigned int)unum(); n = unum();
        d = b_new(n, 0);
        if (!MSAN)
            memset(d.base, 0x5C, n);
        ret = cry_mpi_store_str(a, rx, (char *)d.p);
        o_fmt("%d,", ret);
        if (ret == 0)
            o_hex(d.p, strnlen((char *)d.p, n));
        b_free(&d);
    } else if (strcmp(c, "print") == 0) {    /* print REG RADIX: text printed on stdout */
        unsigned int rx;
        char line[8192];
        FILE *f;
        size_t n;
        int save;
        a = m_arg(); rx = (unsigned int)unum();
        fflush(stdout);
        save = dup(1);
        f = tmpfile();
        if (f == NULL || save < 0) die("tmpfile");
        dup2(fileno(f), 1);
        cry_mpi_print(a, rx);
        fflush(stdout);
        dup2(save, 1);
        close(save);
        rewind(f);
        n = fread(line, 1, sizeof(line), f);
        fclose(f);
        o_hex((unsigned char *)line, n);
    } else if (strcmp(c, "rand") == 0) {
        a = m_arg();
        o_fmt("%d", cry_mpi_rand(a, unum()));
    } else if (strcmp(c, "rrange") == 0) {
        a = m_arg(); b = m_arg();
        o_fmt("%d", cry_mpi_rand_range(a, b));
    } else if (strcmp(c, "rhist") == 0) {    /* rhist R MAX N: occurrences of 0..max-1, and of others */
        unsigned long n, k, other = 0, bad = 0, cnt[256] = { 0 };
        unsigned long max;
        long lv = 0;
        a = m_arg(); b = m_arg(); n = unum();
        if (cry_mpi_get_int(b, &lv) != 0 || lv < 1 || lv > 256) die("rhist");
        max = (unsigned long)lv;
        for (k = 0; k < n; k++) {
            if (cry_mpi_rand_range(a, b) != 0) { bad++; continue; }
            if (cry_mpi_get_int(a, &lv) == 0 && lv >= 0 && (unsigned long)lv < max)
                cnt[lv]++;
            else
                other++;
        }
        for (k = 0; k < max; k++)
            o_fmt("%lu,", cnt[k]);
        o_fmt("%lu,%lu", other, bad);
    } else if (strcmp(c, "prime") == 0) {    /* prime REG BITS ITER|n */
        size_t n;
        char *s;
        unsigned int it, *ip = NULL;
        a = m_arg(); n = unum(); s = need();
        if (*s != 'n') { it = (unsigned int)strtoul(s, NULL, 0); ip = &it; }
        i = cry_mpi_prime(a, n, ip);
        o_fmt("%d,%u", i, ip ? it : 0);
    } else if (strcmp(c, "isprime") == 0) {
        a = m_arg();
        stack_dirty(a_fill);
        o_fmt("%d", cry_mpi_is_prime(a));
    } else {
        return 0;
    }
    return 1;
}

static int do_ecp(const char *c)
{
    int i;
    cry_ecp *r, *a, *b;
    cry_ecp_grp *g;

    if (strcmp(c, "gload") == 0) {           /* gload G ID */
        int k = (int)num();
        int ret;
        if (Gi[k]) { cry_ecp_grp_clear(&G[k]); Gi[k] = 0; }
        memset(&G[k], 0xEE, sizeof(G[k]));
        ret = cry_ecp_grp_load(&G[k], (int)num());
        Gi[k] = (ret == 0);
        o_fmt("%d", ret);
    } else if (strcmp(c, "gset") == 0) {     /* gset G p a b gx gy n */
        int k = (int)num();
        if (Gi[k]) cry_ecp_grp_clear(&G[k]);
        m_set(&G[k].p, need(), 1);
        m_set(&G[k].a, need(), 1);
        m_set(&G[k].b, need(), 1);
        m_set(&G[k].g.x, need(), 1);
        m_set(&G[k].g.y, need(), 1);
        m_set(&G[k].g.z, "1", 1);
        m_set(&G[k].n, need(), 1);
        Gi[k] = 1;
        o_str(".");
    } else if (strcmp(c, "gg") == 0) {
        g = g_reg((int)num());
        m_out(&g->p); o_str(","); m_out(&g->a); o_str(","); m_out(&g->b); o_str(",");
        p_out(&g->g); o_str(","); m_out(&g->n);
    } else if (strcmp(c, "ps") == 0) {       /* ps P x y z */
        i = (int)num();
        if (Pi[i]) cry_ecp_clear(&P[i]);
        m_set(&P[i].x, need(), 1);
        m_set(&P[i].y, need(), 1);
        m_set(&P[i].z, need(), 1);
        Pi[i] = 1;
        o_str(".");
    } else if (strcmp(c, "pg") == 0) {
        p_out(p_reg((int)num()));
    } else if (strcmp(c, "pinit") == 0) {    /* pinit P x y (long) */
        long x, y;
        int ret;
        i = (int)num(); x = num(); y = num();
        if (Pi[i]) { cry_ecp_clear(&P[i]); Pi[i] = 0; }
        ret = cry_ecp_init_int(&P[i], x, y);
        Pi[i] = (ret == 0);
        o_fmt("%d", ret);
    } else if (strcmp(c, "plist") == 0) {
        cry_ecp x[3];
        int ret;
        memset(x, 0xEE, sizeof(x));
        ret = cry_ecp_init_list(&x[0], &x[1], &x[2], (cry_ecp *)NULL);
        o_fmt("%d", ret);
        if (ret == 0) {
            for (i = 0; i < 3; i++) { o_str(","); p_out(&x[i]); }
            cry_ecp_clear_list(&x[0], &x[1], &x[2], (cry_ecp *)NULL);
        }
    } else if (strcmp(c, "pcopy") == 0) {
        r = p_reg((int)num()); a = p_reg((int)num());
        o_fmt("%d", cry_ecp_copy(r, a));
    } else if (strcmp(c, "padd") == 0) {
        r = p_reg((int)num()); a = p_reg((int)num()); b = p_reg((int)num()); g = g_reg((int)num());
        stack_dirty(a_fill);
        o_fmt("%d", cry_ecp_add(r, a, b, g));
    } else if (strcmp(c, "pdbl") == 0) {
        r = p_reg((int)num()); a = p_reg((int)num()); g = g_reg((int)num());
        stack_dirty(a_fill);
        o_fmt("%d", cry_ecp_dbl(r, a, g));
    } else if (strcmp(c, "pmul") == 0) {
        cry_mpi *k;
        r = p_reg((int)num()); a = p_reg((int)num()); k = m_arg(); g = g_reg((int)num());
        stack_dirty(a_fill);
        o_fmt("%d", cry_ecp_mul(r, a, k, g));
    } else if (strcmp(c, "pclear") == 0) {
        i = (int)num();
        r = p_reg(i);
        cry_ecp_clear(r);
        mpi_fields_zero(&r->x); mpi_fields_zero(&r->y); mpi_fields_zero(&r->z);
        cry_ecp_clear(r);
        Pi[i] = 0;
    } else if (strcmp(c, "gclear") == 0) {
        i = (int)num();
        g = g_reg(i);
        cry_ecp_grp_clear(g);
        mpi_fields_zero(&g->p); mpi_fields_zero(&g->a); mpi_fields_zero(&g->b); mpi_fields_zero(&g->n);
        mpi_fields_zero(&g->g.x); mpi_fields_zero(&g->g.y); mpi_fields_zero(&g->g.z);
        cry_ecp_grp_clear(g);
        Gi[i] = 0;
    } else {
        return 0;
    }
    return 1;
}

static void crc_init16(cry_crc16_ctx *x, const char *k)
{
    if (strcmp(k, "ccitt") == 0) cry_crc16_ccitt_init(x);
    else if (strcmp(k, "ibm") == 0) cry_crc16_ibm_init(x);
    else if (strcmp(k, "dnp") == 0) cry_crc16_dnp_init(x);
    else die("crc16");
}

/* clear a context, report whether zero, clear again */
static void slot_clear(struct slot *s)
{
    switch (s->t) {
    case C_AES: cry_aes_clear(s->u); break;
    case C_DES: cry_des_clear(s->u); break;
    case C_ARC4: cry_arc4_clear(s->u); break;
    case C_TRIV: cry_trivium_clear(s->u); break;
    case C_MD5: cry_md5_clear(s->u); break;
    case C_SHA1: cry_sha1_clear(s->u); break;
    case C_SHA256: cry_sha256_clear(s->u); break;
    case C_SHA512: case C_SHA384: cry_sha512_clear(s->u); break;
    case C_CBC: cry_cbc_clear(s->u); break;
    case C_CTR: cry_ctr_clear(s->u); break;
    case C_CFB: cry_cfb_clear(s->u); break;
    case C_GCM: cry_gcm_clear(s->u); break;
    case C_RSA: cry_rsa_clear(s->u); break;
    case C_DSA: cry_dsa_clear(s->u); break;
    case C_ECDSA: cry_ecdsa_clear(s->u); break;
    case C_ELG: cry_elgamal_clear(s->u); break;
    case C_DH: cry_dh_clear(s->u); break;
    case C_ECDH: cry_ecdh_clear(s->u); break;
    default: die("cc");
    }
    if (s->t == C_ECDH) {
        cry_ecdh_ctx *x = s->u;
        mpi_fields_zero(&x->d);
        mpi_fields_zero(&x->q.x); mpi_fields_zero(&x->q.y); mpi_fields_zero(&x->q.z);
        mpi_fields_zero(&x->z.x); mpi_fields_zero(&x->z.y); mpi_fields_zero(&x->z.z);
        mpi_fields_zero(&x->ec.p); mpi_fields_zero(&x->ec.a); mpi_fields_zero(&x->ec.b);
        mpi_fields_zero(&x->ec.n); mpi_fields_zero(&x->ec.g.x); mpi_fields_zero(&x->ec.g.y);
        mpi_fields_zero(&x->ec.g.z);
    } else {
        o_str(all_zero(s->u, s->usz) ? "z" : "X");
    }
    if (s->sub)
        o_str(all_zero(s->sub, s->subsz) ? "z" : "X");
    /* a second clear must be harmless where the context owns memory */
    switch (s->t) {
    case C_RSA: cry_rsa_clear(s->u); break;
    case C_DSA: cry_dsa_clear(s->u); break;
    case C_ECDSA: cry_ecdsa_clear(s->u); break;
    case C_ELG: cry_elgamal_clear(s->u); break;
    case C_DH: cry_dh_clear(s->u); break;
    case C_ECDH: cry_ecdh_clear(s->u); break;
    default: break;
    }
    slot_free(s, 0);
}

static int has_clear(enum ctype t)
{
    return t != C_NONE && t != C_HMAC && t != C_CMAC && t != C_CRC16 && t != C_CRC32 && t != C_HILL && t != C_AFF;
}

static int do_sym(const char *c)
{
    struct slot *s;
    struct buf d, o;

    if (strcmp(c, "ci") == 0) {              /* ci SLOT type [sub] : init context */
        char *t;
        s = slot();
        t = need();
        slot_obj(s, t);
        switch (s->t) {
        case C_AES: cry_aes_init(s->u); break;
        case C_DES: cry_des_init(s->u); break;
        case C_ARC4: cry_arc4_init(s->u); break;
        case C_TRIV: cry_trivium_init(s->u); break;
        case C_MD5: cry_md5_init(s->u); break;
        case C_SHA1: cry_sha1_init(s->u); break;
        case C_SHA256: cry_sha256_init(s->u); break;
        case C_SHA512: cry_sha512_init(s->u, 0); break;
        case C_SHA384: cry_sha512_init(s->u, 1); break;
        case C_CBC: case C_CTR: case C_CFB: case C_GCM: {
            char *b = need();
            const cry_ciph_itf *itf = strcmp(b, "aes") == 0 ? &aes_itf : &des_itf;
            slot_sub(s, b);
            if (s->t == C_CBC) cry_cbc_init(s->u, s->sub, itf);
            else if (s->t == C_CTR) cry_ctr_init(s->u, s->sub, itf);
            else if (s->t == C_CFB) cry_cfb_init(s->u, s->sub, itf);
            else cry_gcm_init(s->u, s->sub, itf);
            break; }
        case C_HMAC: {                       /* ci S hmac HASH KEY */
            char *h = need();
            const cry_hash_itf *itf;
            size_t hl;
            slot_sub(s, h);
            hl = dig_len(s->subt);
            itf = s->subt == C_MD5 ? &md5_itf : s->subt == C_SHA1 ? &sha1_itf : &sha256_itf;
            d = b_arg();
            cry_hmac_init(s->u, s->sub, itf, hl, d.p, d.n);
            b_free(&d);
            break; }
        case C_CMAC:
            slot_sub(s, "aes");
            d = b_arg();
            cry_cmac_init(s->u, s->sub, &aes_itf, d.p, d.n);
            b_free(&d);
            break;
        case C_CRC16: crc_init16(s->u, need()); break;
        case C_CRC32: cry_crc32_eth_init(s->u); break;
        default: die("ci");
        }
        o_str(".");
    } else if (strcmp(c, "crcx") == 0) {     /* crcx SLOT 16|32 start flags : generic init with builtin table */
        long w, fl;
        unsigned long st;
        s = slot(); w = num(); st = unum(); fl = num();
        if (w == 16) {
            cry_crc16_ctx x;
            slot_obj(s, "crc16");
            crc_init16(&x, need());
            cry_crc16_init(s->u, (uint16_t)st, x.tab, (unsigned char)fl);
        } else {
            cry_crc32_ctx x;
            slot_obj(s, "crc32");
            need();
            cry_crc32_eth_init(&x);
            cry_crc32_init(s->u, (uint32_t)st, x.tab, (unsigned char)fl);
        }
        o_str(".");
    } else if (strcmp(c, "ck") == 0) {       /* ck SLOT KEY */
        s = slot();
        d = b_arg();
        switch (s->t) {
        case C_AES: cry_aes_key_set(s->u, d.p, d.n); break;
        case C_DES: cry_des_key_set(s->u, d.p, d.n); break;
        case C_ARC4: cry_arc4_key_set(s->u, d.p, d.n); break;
        case C_TRIV: cry_trivium_key_set(s->u, d.p, d.n); break;
        case C_CBC: cry_cbc_key_set(s->u, d.p, d.n); break;
        case C_CTR: cry_ctr_key_set(s->u, d.p, d.n); break;
        case C_CFB: cry_cfb_key_set(s->u, d.p, d.n); break;
        case C_GCM: cry_gcm_key_set(s->u, d.p, d.n); break;
        default: die("ck");
        }
        b_free(&d);
        o_str(".");
    } else if (strcmp(c, "civ") == 0) {
        s = slot();
        d = b_arg();
        switch (s->t) {
        case C_TRIV: cry_trivium_iv_set(s->u, d.p, d.n); break;
        case C_CBC: cry_cbc_iv_set(s->u, d.p, d.n); break;
        case C_CTR: cry_ctr_iv_set(s->u, d.p, d.n); break;
        case C_CFB: cry_cfb_iv_set(s->u, d.p, d.n); break;
        case C_GCM: cry_gcm_iv_set(s->u, d.p, d.n); break;
        default: die("civ");
        }
        b_free(&d);
        o_str(".");
    } else if ((c[0] == 'e' || c[0] == 'd') && (c[1] == 'i' || c[1] == 'o') &&
               (c[2] == '\0' || (c[2] == '8' && c[3] == '\0'))) {
        /* ei/eo/di/do[8] SLOT DATA */
        s = slot();
        stack_dirty(a_fill);
        crypt_call(s->u, crypt_fn(s, c[0] == 'd', c[2] == '8'), c[1] == 'i');
    } else if (strcmp(c, "up") == 0) {       /* up SLOT DATA */
        s = slot();
        d = b_arg();
        switch (s->t) {
        case C_MD5: cry_md5_update(s->u, d.p, d.n); break;
        case C_SHA1: cry_sha1_update(s->u, d.p, d.n); break;
        case C_SHA256: cry_sha256_update(s->u, d.p, d.n); break;
        case C_SHA512: case C_SHA384: cry_sha512_update(s->u, d.p, d.n); break;
        case C_HMAC: cry_hmac_update(s->u, d.p, d.n); break;
        case C_CMAC: cry_cmac_update(s->u, d.p, d.n); break;
        case C_GCM: cry_gcm_update(s->u, d.p, d.n); break;
        case C_CRC16: cry_crc16_update(s->u, d.p, d.n); break;
        case C_CRC32: cry_crc32_update(s->u, d.p, d.n); break;
        default: die("up");
        }
        b_free(&d);
        o_str(".");
    } else if (strcmp(c, "upn") == 0) {      /* upn SLOT COUNT DATA: the same data COUNT times */
        size_t n;
        s = slot(); n = unum();
        d = b_arg();
        while (n--) {
            switch (s->t) {
            case C_MD5: cry_md5_update(s->u, d.p, d.n); break;
            case C_SHA1: cry_sha1_update(s->u, d.p, d.n); break;
            case C_SHA256: cry_sha256_update(s->u, d.p, d.n); break;
            case C_SHA512: case C_SHA384: cry_sha512_update(s->u, d.p, d.n); break;
            case C_GCM: cry_gcm_update(s->u, d.p, d.n); break;
            default: die("upn");
            }
        }
        b_free(&d);
        o_str(".");
    } else if (strcmp(c, "long") == 0) {     /* long A B OP LEN SEED */
        do_long();
    } else if (strcmp(c, "xn") == 0) {       /* xn ENCSLOT DECSLOT COUNT SIZE: zeros decrypted, the result encrypted again */
        struct slot *s2;
        size_t n, i, bad = 0;
        s = slot(); s2 = slot(); n = unum();
        d = b_new(unum(), misalign);
        o = b_new(d.n, misalign);
        if (s->t != C_GCM || s2->t != C_GCM) die("xn");
        while (n--) {
            memset(d.p, 0, d.n);
            cry_gcm_decrypt(s2->u, o.p, d.p, d.n);
            cry_gcm_encrypt(s->u, o.p, o.p, d.n);
            for (i = 0; i < d.n; i++)
                bad |= o.p[i];
        }
        b_free(&d); b_free(&o);
        o_str(bad ? "differs" : ".");
    } else if (strcmp(c, "upbig") == 0) {    /* upbig SLOT MBYTES TAIL BYTE: one update of a huge buffer */
        size_t mb, tail, total, k, unit = 1 << 20;
        int fd;
        unsigned char *base;
        s = slot(); mb = unum(); tail = unum();
        total = mb * unit + tail;
        fd = memfd_create("big", 0);
        if (fd < 0 || ftruncate(fd, (off_t)unit) != 0) die("memfd");
        base = mmap(NULL, (mb + 1) * unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) die("mmap");
        for (k = 0; k <= mb; k++)
            if (mmap(base + k * unit, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                die("mmap2");
        memset(base, (int)num(), unit);
        switch (s->t) {
        case C_MD5: cry_md5_update(s->u, base, total); break;
        case C_SHA1: cry_sha1_update(s->u, base, total); break;
        case C_SHA256: cry_sha256_update(s->u, base, total); break;
        case C_SHA512: case C_SHA384: cry_sha512_update(s->u, base, total); break;
        default: die("upbig");
        }
        munmap(base, (mb + 1) * unit);
        close(fd);
        o_str(".");
    } else if (strcmp(c, "dg") == 0) {       /* dg SLOT [taglen] */
        s = slot();
        if (s->t == C_CRC16) {
            o = b_new(2, misalign);
            cry_crc16_digest(s->u, o.p);
        } else if (s->t == C_CRC32) {
            o = b_new(4, misalign);
            cry_crc32_digest(s->u, o.p);
        } else if (s->t == C_GCM) {
            o = b_new(unum(), misalign);
            cry_gcm_digest(s->u, o.p, o.n);
        } else if (s->t == C_CMAC) {
            o = b_new(16, misalign);
            cry_cmac_digest(s->u, o.p);
        } else if (s->t == C_HMAC) {
            o = b_new(dig_len(s->subt), misalign);
            cry_hmac_digest(s->u, o.p);
        } else {
            o = b_new(dig_len(s->t), misalign);
            switch (s->t) {
            case C_MD5: cry_md5_digest(s->u, o.p); break;
            case C_SHA1: cry_sha1_digest(s->u, o.p); break;
            case C_SHA256: cry_sha256_digest(s->u, o.p); break;
            default: cry_sha512_digest(s->u, o.p); break;
            }
        }
        o_hex(o.p, o.n);
        b_free(&o);
    } else if (strcmp(c, "fin") == 0) {      /* crc final */
        s = slot();
        if (s->t == C_CRC16) o_fmt("%x", cry_crc16_final(s->u));
        else o_fmt("%x", cry_crc32_final(s->u));
    } else if (strcmp(c, "crc") == 0) {      /* crc KIND DATA: one shot */
        char *k = need();
        d = b_arg();
        if (strcmp(k, "ccitt") == 0) o_fmt("%x", cry_crc16_ccitt(d.p, d.n));
        else if (strcmp(k, "ibm") == 0) o_fmt("%x", cry_crc16_ibm(d.p, d.n));
        else if (strcmp(k, "dnp") == 0) o_fmt("%x", cry_crc16_dnp(d.p, d.n));
        else o_fmt("%x", cry_crc32_eth(d.p, d.n));
        b_free(&d);
    } else if (strcmp(c, "hash") == 0) {     /* hash KIND DATA: one shot */
        char *k = need();
        d = b_arg();
        o = b_new(dig_len(ct[ct_find(k)].t), misalign);
        stack_dirty(a_fill);
        if (strcmp(k, "md5") == 0) cry_md5(o.p, d.p, d.n);
        else if (strcmp(k, "sha1") == 0) cry_sha1(o.p, d.p, d.n);
        else if (strcmp(k, "sha256") == 0) cry_sha256(o.p, d.p, d.n);
        else if (strcmp(k, "sha384") == 0) cry_sha384(o.p, d.p, d.n);
        else cry_sha512(o.p, d.p, d.n);
        o_hex(o.p, o.n);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "cc") == 0) {       /* cc SLOT: clear, report whether zero */
        slot_clear(slot());
    } else if (strcmp(c, "clearall") == 0) { /* clears everything alive: type:flags,... */
        int i, n = 0;
        for (i = 0; i < NC; i++) {
            int k;
            if (!has_clear(S[i].t))
                continue;
            for (k = 0; ct[k].t != S[i].t; k++)
                ;
            o_fmt("%s%s", n++ ? "," : "", ct[k].n);
            if (S[i].sub) {
                for (k = 0; ct[k].t != S[i].subt; k++)
                    ;
                o_fmt("-%s", ct[k].n);
            }
            o_str(":");
            slot_clear(&S[i]);
        }
        for (i = 0; i < NM; i++) {
            if (!Mi[i])
                continue;
            o_fmt("%smpi:", n++ ? "," : "");
            cry_mpi_clear(&M[i]);
            mpi_fields_zero(&M[i]);
            cry_mpi_clear(&M[i]);
            mpi_fields_zero(&M[i]);
            Mi[i] = 0;
        }
        for (i = 0; i < NP; i++) {
            cry_ecp *r = &P[i];
            if (!Pi[i])
                continue;
            o_fmt("%secp:", n++ ? "," : "");
            cry_ecp_clear(r);
            mpi_fields_zero(&r->x); mpi_fields_zero(&r->y); mpi_fields_zero(&r->z);
            cry_ecp_clear(r);
            Pi[i] = 0;
        }
        for (i = 0; i < NG; i++) {
            cry_ecp_grp *g = &G[i];
            if (!Gi[i])
                continue;
            o_fmt("%sgrp:", n++ ? "," : "");
            cry_ecp_grp_clear(g);
            mpi_fields_zero(&g->p); mpi_fields_zero(&g->a); mpi_fields_zero(&g->b); mpi_fields_zero(&g->n);
            mpi_fields_zero(&g->g.x); mpi_fields_zero(&g->g.y); mpi_fields_zero(&g->g.z);
            cry_ecp_grp_clear(g);
            Gi[i] = 0;
        }
        if (n == 0)
            o_str("-");
    } else if (strcmp(c, "hill") == 0) {     /* hill SLOT KEY|@ IKEY|@ LEN */
        char *k, *ik;
        struct buf kb, ikb;
        size_t n;
        int ret;
        s = slot(); k = need(); ik = need(); n = unum();
        slot_obj(s, "hill");
        memset(&kb, 0, sizeof(kb)); memset(&ikb, 0, sizeof(ikb));
        if (*k != '@') kb = b_data(k);
        if (*ik != '@') ikb = b_data(ik);
        ret = cry_hill_init(s->u, *k != '@' ? kb.p : NULL, *ik != '@' ? ikb.p : NULL, n);
        o_fmt("%d,%zu,", ret, ((cry_hill_ctx *)s->u)->n);
        if (ret == 0) {
            cry_hill_ctx *x = s->u;
            if (x->n <= CRY_HILL_KEYDIM_MAX) {
                o_hex(x->key, x->n*x->n); o_str(","); o_hex(x->ikey, x->n*x->n);
            }
        }
        if (kb.base) b_free(&kb);
        if (ikb.base) b_free(&ikb);
    } else if (strcmp(c, "hilt") == 0) {     /* hilt SLOT DATA OUTSIZE: output longer than the message */
        s = slot();
        d = b_arg();
        o = b_new(unum(), misalign);
        cry_hill_encrypt(s->u, o.p, d.p, d.n);
        o_hex(o.p, o.n);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "aff") == 0) {      /* aff SLOT A B */
        struct buf b2;
        int ret;
        s = slot();
        slot_obj(s, "aff");
        d = b_arg(); b2 = b_arg();
        ret = cry_affine_init(s->u, d.p, b2.p, d.n);
        o_fmt("%d", ret);
        b_free(&d); b_free(&b2);
    } else if (strcmp(c, "wrapbig") == 0) {  /* wrapbig DATA KEY: against a reference on the block cipher in here */
        struct buf k, e;
        cry_aes_ctx aes;
        unsigned char b[16];
        size_t i, j, n, t;
        int ret, ret2;
        d = b_arg(); k = b_arg();
        n = d.n / 8;
        e = b_new(d.n + 8, 0);
        memset(e.p, 0xA6, 8);
        memcpy(e.p + 8, d.p, d.n);
        memset(&aes, 0, sizeof(aes));
        cry_aes_key_set(&aes, k.p, k.n);
        memcpy(b, e.p, 8);
        for (j = 0, t = 0; j < 6; j++)
            for (i = 1; i <= n; i++) {
                size_t q;
                memcpy(b + 8, e.p + 8 * i, 8);
                cry_aes_encrypt(&aes, b, b, 16);
                memcpy(e.p + 8 * i, b + 8, 8);
                t++;
                for (q = 0; q < 8; q++)
                    b[q] ^= (unsigned char)(t >> (56 - 8 * q));
            }
        memcpy(e.p, b, 8);
        o = b_new(d.n + 8, misalign);
        ret = cry_aes_wrap(o.p, d.p, d.n, k.p, k.n);
        o_fmt("%d,%s,", ret, memcmp(o.p, e.p, e.n) ? "wrong" : "right");
        b_free(&o);
        o = b_new(d.n, misalign);
        ret2 = cry_aes_unwrap(o.p, e.p, d.n, k.p, k.n);
        o_fmt("%d,%s", ret2, memcmp(o.p, d.p, d.n) ? "wrong" : "right");
        b_free(&d); b_free(&k); b_free(&e); b_free(&o);
    } else if (strcmp(c, "wrap") == 0 || strcmp(c, "unwrap") == 0) {  /* wrap DATA KEY */
        struct buf k;
        int ret;
        d = b_arg(); k = b_arg();
        stack_dirty(a_fill);
        if (*c == 'w') {
            o = b_new(d.n + 8, misalign);
            ret = cry_aes_wrap(o.p, d.p, d.n, k.p, k.n);
        } else {
            o = b_new(d.n - 8, misalign);
            ret = cry_aes_unwrap(o.p, d.p, d.n - 8, k.p, k.n);
        }
        o_fmt("%d,", ret);
        o_hex(o.p, o.n);
        b_free(&d); b_free(&k); b_free(&o);
    } else if (strcmp(c, "b64e") == 0) {     /* b64e DATA OUTSIZE */
        size_t n, r;
        d = b_arg(); n = unum();
        o = b_new(n, misalign);
        r = cry_base64_encode((char *)o.p, (char *)d.p, d.n);
        o_fmt("%ld,", (long)r);
        o_hex(o.p, r <= n ? r : 0);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "b64d") == 0) {     /* b64d TEXTHEX OUTSIZE */
        size_t n, r;
        d = b_arg(); n = unum();
        o = b_new(n, misalign);
        r = cry_base64_decode((char *)o.p, (char *)d.p, d.n);
        o_fmt("%ld,", (long)r);
        if (r != (size_t)-1)
            o_hex(o.p, r <= n ? r : 0);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "xor") == 0) {      /* xor AREA dst src n */
        size_t a, b, n;
        d = b_arg(); a = unum(); b = unum(); n = unum();
        cry_memxor(d.p + a, d.p + b, n);
        o_hex(d.p, d.n);
        b_free(&d);
    } else if (strcmp(c, "xor2") == 0) {     /* xor2 AREA dst s1 s2 n */
        size_t a, b, e, n;
        d = b_arg(); a = unum(); b = unum(); e = unum(); n = unum();
        cry_memxor2(d.p + a, d.p + b, d.p + e, n);
        o_hex(d.p, d.n);
        b_free(&d);
    } else if (strcmp(c, "xord") == 0) {     /* xord DST SRC: separate buffers */
        struct buf e;
        d = b_arg(); e = b_arg();
        cry_memxor(d.p, e.p, e.n);
        o_hex(d.p, d.n);
        b_free(&d); b_free(&e);
    } else if (strcmp(c, "xor2d") == 0) {
        struct buf e;
        d = b_arg(); e = b_arg();
        o = b_new(d.n, misalign);
        cry_memxor2(o.p, d.p, e.p, d.n);
        o_hex(o.p, o.n);
        b_free(&d); b_free(&e); b_free(&o);
    } else if (strcmp(c, "xorbig") == 0) {   /* xorbig 2|3 MB TAIL SEED: sums over the destination, in one call and in pieces */
        int two = (int)num() == 2;
        size_t n = unum() * MEG, i, k;
        unsigned char *a, *b;
        unsigned char *p;
        n += unum();
        a = big_src(n, unum());
        p = big_dst(n);
        b = a + 4093;
        memset(p + n - MEG, 0x5A, MEG);
        p[n] = 0x77;
        if (two)
            cry_memxor(p, a, n);
        else
            cry_memxor2(p, a, b, n - 4093);
        if (!two)
            n -= 4093;
        for (i = 0; i < n; i += k) {        /* afterwards the destination is all zero, but for the last bytes */
            k = n - i < 65536 ? n - i : 65536;
            cry_memxor(p + i, a + i, k);
            if (!two)
                cry_memxor(p + i, b + i, k);
        }
        for (i = 0; i < n && p[i] == (two && i >= n - MEG ? 0x5A : 0); i++)
            ;
        o_fmt("%s,%02x", i == n ? "right" : "wrong", p[n]);
        if (!two)
            n += 4093;
        big_free(a, n);
        big_free(p, n);
    } else if (strcmp(c, "seed") == 0) {     /* seed HEX|@ LEN */
        char *k = need();
        int ret;
        if (*k == '@') {
            ret = cry_prng_aes_init(NULL, 0);
        } else {
            d = b_data(k);
            ret = cry_prng_aes_init(d.p, d.n);
            b_free(&d);
        }
        o_fmt("%d", ret);
    } else if (strcmp(c, "prng") == 0) {     /* prng N (real generator, no override) */
        int ret;
        o = b_new(unum(), misalign);
        ret = __real_cry_prng_aes_rand(o.p, o.n);
        o_fmt("%d,", ret);
        o_hex(o.p, o.n);
        b_free(&o);
    } else if (strcmp(c, "lseed") == 0) {
        char *k = need();
        int ret;
        if (*k == '@') {
            ret = cry_prng_lfsr113_init(NULL, 0);
        } else {
            d = b_data(k);
            ret = cry_prng_lfsr113_init(d.p, d.n);
            b_free(&d);
        }
        o_fmt("%d", ret);
    } else if (strcmp(c, "lprng") == 0) {
        int ret;
        o = b_new(unum(), misalign);
        ret = cry_prng_lfsr113_rand(o.p, o.n);
        o_fmt("%d,", ret);
        o_hex(o.p, o.n);
        b_free(&o);
    } else {
        return 0;
    }
    return 1;
}

static int do_pk(const char *c)
{
    struct slot *s;
    struct buf d, o;
    int ret;

    if (strcmp(c, "kinit") == 0) {           /* kinit SLOT type arg */
        char *t;
        long f;
        s = slot(); t = need(); f = num();
        slot_free(s, 1);
        slot_obj(s, t);
        switch (s->t) {
        case C_RSA: ret = cry_rsa_init(s->u, (int)f); break;
        case C_DSA: ret = cry_dsa_init(s->u); break;
        case C_ECDSA: ret = cry_ecdsa_init(s->u, (int)f); break;
        case C_ELG: ret = cry_elgamal_init(s->u); break;
        case C_DH: ret = cry_dh_init(s->u); break;
        case C_ECDH: ret = cry_ecdh_init(s->u); break;
        default: die("kinit"); return 1;
        }
        o_fmt("%d", ret);
        if (ret != 0)
            slot_free(s, 0);
    } else if (strcmp(c, "kset") == 0) {     /* kset SLOT FIELD HEX */
        char *f;
        cry_mpi *m = NULL;
        s = slot(); f = need();
        if (s->t == C_RSA) {
            cry_rsa_ctx *x = s->u;
            m = *f == 'n' ? &x->n : *f == 'e' ? &x->e : *f == 'd' ? &x->d : *f == 'p' ? &x->p : &x->q;
        } else if (s->t == C_DSA) {
            cry_dsa_ctx *x = s->u;
            m = *f == 'p' ? &x->p : *f == 'q' ? &x->q : *f == 'g' ? &x->g : *f == 'x' ? &x->pvt : &x->pub;
        } else if (s->t == C_ELG) {
            cry_elgamal_ctx *x = s->u;
            m = *f == 'p' ? &x->p : *f == 'g' ? &x->g : *f == 'y' ? &x->y : &x->d;
        } else if (s->t == C_DH) {
            cry_dh_ctx *x = s->u;
            m = *f == 'p' ? &x->p : *f == 'g' ? &x->g : *f == 'e' ? &x->e : *f == 'Y' ? &x->Y : &x->Z;
        } else if (s->t == C_ECDSA || s->t == C_ECDH) {
            cry_ecp_grp *g = s->t == C_ECDSA ? &((cry_ecdsa_ctx *)s->u)->grp : &((cry_ecdh_ctx *)s->u)->ec;
            cry_ecp *q = s->t == C_ECDSA ? &((cry_ecdsa_ctx *)s->u)->q : &((cry_ecdh_ctx *)s->u)->q;
            cry_mpi *dd = s->t == C_ECDSA ? &((cry_ecdsa_ctx *)s->u)->d : &((cry_ecdh_ctx *)s->u)->d;
            if (!strcmp(f, "p")) m = &g->p; else if (!strcmp(f, "a")) m = &g->a;
            else if (!strcmp(f, "b")) m = &g->b; else if (!strcmp(f, "gx")) m = &g->g.x;
            else if (!strcmp(f, "gy")) m = &g->g.y; else if (!strcmp(f, "gz")) m = &g->g.z;
            else if (!strcmp(f, "n")) m = &g->n;
            else if (!strcmp(f, "d")) m = dd;
            else if (!strcmp(f, "qx")) m = &q->x; else if (!strcmp(f, "qy")) m = &q->y;
            else m = &q->z;
        } else {
            die("kset");
        }
        m_replace(m, need());
        o_str(".");
    } else if (strcmp(c, "kgrp") == 0) {     /* kgrp SLOT ID: ECDH group from the built-in list */
        s = slot();
        cry_ecp_grp_clear(&((cry_ecdh_ctx *)s->u)->ec);
        o_fmt("%d", cry_ecp_grp_load(&((cry_ecdh_ctx *)s->u)->ec, (int)num()));
    } else if (strcmp(c, "kget") == 0) {     /* kget SLOT: all integers */
        s = slot();
        if (s->t == C_RSA) {
            cry_rsa_ctx *x = s->u;
            m_out(&x->n); o_str(","); m_out(&x->e); o_str(","); m_out(&x->d); o_str(",");
            m_out(&x->p); o_str(","); m_out(&x->q);
        } else if (s->t == C_DSA) {
            cry_dsa_ctx *x = s->u;
            m_out(&x->p); o_str(","); m_out(&x->q); o_str(","); m_out(&x->g); o_str(",");
            m_out(&x->pvt); o_str(","); m_out(&x->pub);
        } else if (s->t == C_ECDSA) {
            cry_ecdsa_ctx *x = s->u;
            m_out(&x->d); o_str(","); p_out(&x->q);
        } else if (s->t == C_ELG) {
            cry_elgamal_ctx *x = s->u;
            m_out(&x->p); o_str(","); m_out(&x->g); o_str(","); m_out(&x->y); o_str(","); m_out(&x->d);
        } else if (s->t == C_DH) {
            cry_dh_ctx *x = s->u;
            m_out(&x->e); o_str(","); m_out(&x->Y); o_str(","); m_out(&x->Z);
        } else if (s->t == C_ECDH) {
            cry_ecdh_ctx *x = s->u;
            m_out(&x->d); o_str(","); p_out(&x->q); o_str(","); p_out(&x->z);
        }
    } else if (strcmp(c, "kgen") == 0) {     /* kgen SLOT a b */
        long a, b;
        s = slot(); a = num(); b = num();
        stack_dirty(a_fill);
        if (s->t == C_RSA) ret = cry_rsa_keygen(s->u, (size_t)a, b);
        else if (s->t == C_DSA) ret = cry_dsa_keygen(s->u, (unsigned int)a);
        else if (s->t == C_ECDSA) ret = cry_ecdsa_keygen(s->u);
        else { die("kgen"); return 1; }
        o_fmt("%d", ret);
    } else if (strcmp(c, "renc") == 0 || strcmp(c, "rdec") == 0 || strcmp(c, "rsig") == 0) {
        unsigned char *out = (unsigned char *)(uintptr_t)0x10;
        size_t ol = 0xdead;
        s = slot();
        d = b_arg();
        stack_dirty(a_fill);
        ret = (c[1] == 'e' ? cry_rsa_encrypt : c[1] == 'd' ? cry_rsa_decrypt : cry_rsa_sign)
              (s->u, &out, &ol, d.p, d.n);
        o_fmt("%d,%zu,", ret, ol);
        if (ret == 0) {
            if (out == NULL) {
                o_str("N");
            } else {
                o_hex(out, ol);
                __wrap_free(out);
            }
        } else {
            o_str(out == NULL ? "N" : "P");
        }
        b_free(&d);
    } else if (strcmp(c, "rver") == 0) {     /* rver SLOT SIG MSG */
        s = slot();
        o = b_arg(); d = b_arg();
        stack_dirty(a_fill);
        ret = cry_rsa_verify(s->u, o.p, o.n, d.p, d.n);
        o_fmt("%d", ret);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "sign") == 0) {     /* sign SLOT MSG -> ret,r,s */
        cry_mpi r, z;
        s = slot();
        d = b_arg();
        {
            long f = a_fail, cnt = a_count;
            a_fail = -1;
            m_set(&r, "-abcdef0123456789abcdef", 0);
            m_set(&z, "-77", 0);
            a_fail = f;
            a_count = cnt;
        }
        stack_dirty(a_fill);
        if (s->t == C_DSA) {
            cry_dsa_sig g; g.r = r; g.s = z;
            ret = cry_dsa_sign(s->u, &g, d.p, d.n);
            r = g.r; z = g.s;
        } else if (s->t == C_ECDSA) {
            cry_ecdsa_sig g; g.r = r; g.s = z;
            ret = cry_ecdsa_sign(s->u, &g, d.p, d.n);
            r = g.r; z = g.s;
        } else if (s->t == C_ELG) {
            cry_elgamal_sig g; g.r = r; g.s = z;
            ret = cry_elgamal_sign2(s->u, &g, d.p, d.n);
            r = g.r; z = g.s;
        } else { die("sign"); return 1; }
        o_fmt("%d", ret);
        if (ret == 0) {
            o_str(","); m_out(&r); o_str(","); m_out(&z);
        }
        cry_mpi_clear(&r); cry_mpi_clear(&z);
        b_free(&d);
    } else if (strcmp(c, "ver") == 0) {      /* ver SLOT r s MSG */
        cry_mpi r, z;
        long f = a_fail, cnt = a_count;
        char *rs, *zs;
        s = slot();
        rs = need(); zs = need();
        a_fail = -1;
        m_set(&r, rs, 0); m_set(&z, zs, 0);
        a_fail = f;
        a_count = cnt;
        d = b_arg();
        stack_dirty(a_fill);
        if (s->t == C_DSA) {
            cry_dsa_sig g; g.r = r; g.s = z;
            ret = cry_dsa_verify(s->u, &g, d.p, d.n);
        } else if (s->t == C_ECDSA) {
            cry_ecdsa_sig g; g.r = r; g.s = z;
            ret = cry_ecdsa_verify(s->u, &g, d.p, d.n);
        } else if (s->t == C_ELG) {
            cry_elgamal_sig g; g.r = r; g.s = z;
            ret = cry_elgamal_verify2(s->u, &g, d.p, d.n);
        } else { die("ver"); return 1; }
        o_fmt("%d,", ret);
        m_out(&r); o_str(","); m_out(&z);
        cry_mpi_clear(&r); cry_mpi_clear(&z);
        b_free(&d);
    } else if (strcmp(c, "sv") == 0) {       /* sv SLOT MSG SLOT2 MSG2: sign, then verify -> ret,r,s,vret */
        cry_mpi r, z;
        struct slot *v;
        int vret;
        s = slot(); d = b_arg(); v = slot(); o = b_arg();
        m_set(&r, "-abcdef0123456789abcdef", 0);
        m_set(&z, "-77", 0);
        if (s->t != v->t) die("sv");
        stack_dirty(a_fill);
        if (s->t == C_DSA) {
            cry_dsa_sig g; g.r = r; g.s = z;
            ret = cry_dsa_sign(s->u, &g, d.p, d.n);
            vret = ret ? ret : cry_dsa_verify(v->u, &g, o.p, o.n);
            r = g.r; z = g.s;
        } else if (s->t == C_ECDSA) {
            cry_ecdsa_sig g; g.r = r; g.s = z;
            ret = cry_ecdsa_sign(s->u, &g, d.p, d.n);
            vret = ret ? ret : cry_ecdsa_verify(v->u, &g, o.p, o.n);
            r = g.r; z = g.s;
        } else if (s->t == C_ELG) {
            cry_elgamal_sig g; g.r = r; g.s = z;
            ret = cry_elgamal_sign2(s->u, &g, d.p, d.n);
            vret = ret ? ret : cry_elgamal_verify2(v->u, &g, o.p, o.n);
            r = g.r; z = g.s;
        } else { die("sv"); return 1; }
        o_fmt("%d,", ret);
        if (ret == 0) { m_out(&r); o_str(","); m_out(&z); o_fmt(",%d", vret); }
        cry_mpi_clear(&r); cry_mpi_clear(&z);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "esv") == 0) {      /* esv SLOT MSG SIGSIZE SLOT2 MSG2: byte form of sv */
        size_t n;
        struct buf e;
        struct slot *v;
        s = slot(); d = b_arg(); n = unum(); v = slot(); e = b_arg();
        o = b_new(n, misalign);
        ret = cry_elgamal_sign(s->u, o.p, d.p, d.n);
        o_fmt("%d,", ret);
        if (ret == 0) {
            o_hex(o.p, o.n);
            o_fmt(",%d", cry_elgamal_verify(v->u, o.p, e.p, e.n));
        }
        b_free(&d); b_free(&e); b_free(&o);
    } else if (strcmp(c, "red") == 0 || strcmp(c, "rsv") == 0) {
        /* red SLOT MSG SLOT2: encrypt, decrypt -> ret,len,ct,ret,len,pt; rsv SLOT MSG SLOT2 MSG2 -> ret,len,sig,vret */
        unsigned char *out = NULL, *out2 = NULL;
        size_t ol = 0, ol2 = 0;
        struct slot *v;
        struct buf e;
        int sv = c[1] == 's';
        s = slot(); d = b_arg(); v = slot();
        if (sv) e = b_arg();
        stack_dirty(a_fill);
        ret = (sv ? cry_rsa_sign : cry_rsa_encrypt)(s->u, &out, &ol, d.p, d.n);
        o_fmt("%d,%zu,", ret, ol);
        if (ret == 0) {
            struct buf cp = b_new(ol, misalign);
            memcpy(cp.p, out, ol);
            o_hex(out, ol);
            if (out) __wrap_free(out);
            if (sv) {
                o_fmt(",%d", cry_rsa_verify(v->u, cp.p, cp.n, e.p, e.n));
            } else {
                ret = cry_rsa_decrypt(v->u, &out2, &ol2, cp.p, cp.n);
                o_fmt(",%d,%zu,", ret, ol2);
                if (ret == 0) { o_hex(out2, ol2); if (out2) __wrap_free(out2); }
            }
            b_free(&cp);
        }
        if (sv) b_free(&e);
        b_free(&d);
    } else if (strcmp(c, "esign") == 0) {    /* ElGamal byte form: esign SLOT MSG SIGSIZE */
        size_t n;
        s = slot();
        d = b_arg(); n = unum();
        o = b_new(n, misalign);
        ret = cry_elgamal_sign(s->u, o.p, d.p, d.n);
        o_fmt("%d,", ret);
        if (ret == 0)
            o_hex(o.p, o.n);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "ever") == 0) {     /* ever SLOT SIG MSG */
        s = slot();
        o = b_arg(); d = b_arg();
        ret = cry_elgamal_verify(s->u, o.p, d.p, d.n);
        o_fmt("%d", ret);
        b_free(&d); b_free(&o);
    } else if (strcmp(c, "agree") == 0) {
        s = slot();
        o_fmt("%d", s->t == C_DH ? cry_dh_agree(s->u) : cry_ecdh_agree(s->u));
    } else if (strcmp(c, "final") == 0) {
        s = slot();
        o_fmt("%d", s->t == C_DH ? cry_dh_finalize(s->u) : cry_ecdh_final(s->u));
    } else if (strcmp(c, "gettok") == 0 || strcmp(c, "getsec") == 0) {
        size_t n;
        s = slot(); n = unum();
        o = b_new(n, misalign);
        ret = c[3] == 't' ? cry_dh_get_tok(s->u, o.p, n) : cry_dh_get_sec(s->u, o.p, n);
        o_fmt("%d,", ret);
        if (ret == 0)
            o_hex(o.p, o.n);
        b_free(&o);
    } else if (strcmp(c, "settok") == 0) {
        s = slot();
        d = b_arg();
        o_fmt("%d", cry_dh_set_tok(s->u, d.p, d.n));
        b_free(&d);
    } else {
        return 0;
    }
    return 1;
}

static int do_ctl(const char *c)
{
    if (strcmp(c, "fill") == 0) {
        a_fill = (unsigned char)num();
        o_str(".");
    } else if (strcmp(c, "mis") == 0) {
        misalign = unum();
        o_str(".");
    } else if (strcmp(c, "fail") == 0) {     /* fail N all */
        a_fail = num();
        a_fail_all = (int)num();
        a_count = 0;
        a_failed = 0;
        o_str(".");
    } else if (strcmp(c, "failoff") == 0) {  /* -> allocations made, refused */
        o_fmt("%ld,%ld", a_count, a_failed);
        a_fail = -1;
        a_fail_all = 0;
    } else if (strcmp(c, "sites") == 0) {    /* note the call sites above allocations from here on */
        if (s_tab == NULL)
            s_tab = __real_malloc(SITES * sizeof(*s_tab));
        s_num = 0;
        s_on = 1;
        o_str(".");
    } else if (strcmp(c, "sitelist") == 0) { /* -> first:last pass of every pair of call sites */
        int i;
        s_on = 0;
        for (i = 0; i < s_num; i++)
            o_fmt("%s%ld:%ld", i ? "," : "", s_tab[i].first, s_tab[i].last);
        if (s_num == 0)
            o_str("-");
    } else if (strcmp(c, "live") == 0) {
        o_fmt("%ld", a_live);
    } else if (strcmp(c, "rnd") == 0) {      /* override the next random bytes */
        struct buf d = b_arg();
        if (rnd_buf) __real_free(rnd_buf);
        rnd_buf = __real_malloc(d.n ? d.n : 1);
        memcpy(rnd_buf, d.p, d.n);
        rnd_len = d.n;
        rnd_pos = 0;
        b_free(&d);
        o_str(".");
    } else if (strcmp(c, "rndgen") == 0) {   /* a random stream of the case's own */
        E->gen_ = 1;
        E->gens_ = strtoul(tok(), NULL, 16);
        o_str(".");
    } else if (strcmp(c, "rndoff") == 0) {   /* -> bytes left */
        o_fmt("%zu", rnd_len - rnd_pos);
        rnd_len = rnd_pos = 0;
    } else {
        return 0;
    }
    return 1;
}

static int start_case(char *line)
{
    char *c;

    tokp = line;
    c = tok();
    if (c == NULL)
        return 0;
    snprintf(cur_id, sizeof(cur_id), "%s", c);
    O.n = 0;
    o_str(cur_id);
    case_begin();
    E->first_ = 1;
    E->done_ = 0;
    return 1;
}

/* Executes one command; 0 at the end of the case */
/* Brings the threads to the same command at about the same time; relaxed, so that
 * the thread sanitizer sees no order between them. */
static int lock_threads;
static unsigned long lock_arrived, lock_done;
static __thread unsigned long lock_mine;

static void lockstep(void)
{
    if (lock_threads == 0)
        return;
    lock_mine += (unsigned long)lock_threads;
    __atomic_add_fetch(&lock_arrived, 1, __ATOMIC_RELAXED);
    while (__atomic_load_n(&lock_arrived, __ATOMIC_RELAXED) < lock_mine &&
           __atomic_load_n(&lock_done, __ATOMIC_RELAXED) == 0)
        sched_yield();
}

static int step_case(void)
{
    char *c;
    unsigned long at;

    do {
        c = tok();
        if (c == NULL)
            return 0;
    } while (strcmp(c, ";") == 0);
    o_str(E->first_ ? " " : " | ");
    E->first_ = 0;
    n_cmd++;
    lockstep();
    at = __atomic_add_fetch(&seq, 1, __ATOMIC_RELAXED);
    a_on = 1;
    if (!do_mpi(c) && !do_sym(c) && !do_ecp(c) && !do_pk(c) && !do_ctl(c)) {
        fprintf(stderr, "unknown command %s\n", c);
        die("unknown command");
    }
    a_on = 0;
    if (__atomic_load_n(&seq, __ATOMIC_RELAXED) != at)
        n_over++;
    return 1;
}

static void end_case(void)
{
    a_on = 1;
    case_end();
    a_on = 0;
    o_str("\n");
}

static void run_case(char *line)
{
    if (!start_case(line))
        return;
    while (step_case())
        ;
    end_case();
    o_flush();
}

/* Runs k cases command by command in an order drawn from the seed */
static void run_group(char **lines, size_t k, unsigned long seed)
{
    struct env *e = __real_calloc(k, sizeof(*e));
    size_t i, left = k;
    unsigned long x = seed * 0x9E3779B97F4A7C15UL + 88172645463325252UL;

    grouped = 1;
    for (i = 0; i < k; i++) {
        E = &e[i];
        if (!start_case(lines[i]))
            die("empty case in a group");
    }
    while (left > 0) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        i = (size_t)((x >> 20) % k);
        while (e[i].done_)
            i = (i + 1) % k;
        E = &e[i];
        if (!step_case()) {
            e[i].done_ = 1;
            left--;
        }
    }
    for (i = 0; i < k; i++) {
        E = &e[i];
        end_case();
        o_flush();
        __real_free(O.p);
    }
    grouped = 0;
    a_live = 0;
    E = &E0;
    __real_free(e);
}

/* ------------------------------------------------------------------ */

/* called by the library when its parameter checks are compiled in: all parameters here are valid */
void cry_assert_fail(const char *cond, const char *file, int line)
{
    fprintf(stderr, "ERROR: parameter check failed: %s %s:%d\n", cond, file, line);
    _exit(98);
}

static long cpu_limit = 20;

static void on_prof(int sig)
{
    static const char m[] = "DRIVER HANG\n";
    (void)sig;
    if (write(2, m, sizeof(m) - 1) < 0) {}
    _exit(77);
}

static double slowest;

/* CPU time since the last call; remembers the longest time of a case */
static void lap(void)
{
    static double last;
    struct timespec ts;
    double now;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    now = (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
    if (last > 0 && now - last > slowest)
        slowest = now - last;
    last = now;
}

static void arm(void)
{
    struct itimerval t;
    lap();
    memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = cpu_limit;
    setitimer(ITIMER_PROF, &t, NULL);
}

struct job { char **lines; size_t n; char path[4096]; pthread_barrier_t *bar; int reps; };

static void *worker(void *arg)
{
    struct job *j = arg;
    size_t i;
    FILE *f = fopen(j->path, "w");
    if (f == NULL)
        die("open");
    out_fd = fileno(f);
    E = &E0;
    pthread_barrier_wait(j->bar);
    for (i = 0; i < j->n; i++) {
        char *l = strdup(j->lines[i]);
        run_case(l);
        free(l);
    }
    __atomic_add_fetch(&lock_done, 1, __ATOMIC_RELAXED);
    fprintf(f, "#%lu %lu\n", n_cmd, n_over);
    fclose(f);
    if (ttab) __real_free(ttab);
    if (O.p) __real_free(O.p);
    return NULL;
}

int main(int argc, char **argv)
{
    FILE *f;
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    int threads;
    size_t group;

    E = &E0;
    if (argc < 3) {
        fprintf(stderr, "usage: drv CASES OUT [cpu_limit] [threads [group]]\n");
        return 3;
    }
    if (argc > 3)
        cpu_limit = atol(argv[3]);
    threads = argc > 4 ? atoi(argv[4]) : 0;
    group = argc > 5 ? (size_t)atol(argv[5]) : 0;
    f = fopen(argv[1], "r");
    if (f == NULL)
        die("cases");
    signal(SIGPROF, on_prof);
    if (threads == 0) {
        FILE *o = fopen(argv[2], "w");
        if (o == NULL)
            die("out");
        out_fd = fileno(o);
        if (group > 0) {
            char **L = calloc(group, sizeof(char *));
            size_t k = 0;
            unsigned long g = 0;
            for (;;) {
                n = getline(&line, &cap, f);
                if (n > 0) {
                    if (line[n-1] == '\n')
                        line[n-1] = '\0';
                    L[k++] = strdup(line);
                }
                if (k == group || (n <= 0 && k > 0)) {
                    arm();
                    run_group(L, k, ++g);
                    while (k > 0)
                        free(L[--k]);
                }
                if (n <= 0)
                    break;
            }
            free(L);
        } else while ((n = getline(&line, &cap, f)) > 0) {
            if (line[n-1] == '\n')
                line[n-1] = '\0';
            arm();
            run_case(line);
        }
        lap();
        fprintf(stderr, "SLOWEST %.3f\n", slowest);
        fclose(o);
        if (ttab) __real_free(ttab);
        if (O.p) __real_free(O.p);
    } else {
        /* every thread runs its share; all threads' shares are the lines i % threads */
        struct job *J = calloc((size_t)threads, sizeof(*J));
        pthread_t *T = calloc((size_t)threads, sizeof(*T));
        pthread_barrier_t bar;
        size_t k = 0;
        int i;
        if (argc > 5 && atoi(argv[5]) < 0)
            lock_threads = threads;
        pthread_barrier_init(&bar, NULL, (unsigned)threads);
        while ((n = getline(&line, &cap, f)) > 0) {
            struct job *j = &J[k++ % (size_t)threads];
            if (line[n-1] == '\n')
                line[n-1] = '\0';
            j->lines = realloc(j->lines, (j->n + 1) * sizeof(char *));
            j->lines[j->n++] = strdup(line);
        }
        arm();
        for (i = 0; i < threads; i++) {
            snprintf(J[i].path, sizeof(J[i].path), "%s.%d", argv[2], i);
            J[i].bar = &bar;
            pthread_create(&T[i], NULL, worker, &J[i]);
        }
        for (i = 0; i < threads; i++) {
            size_t q;
            pthread_join(T[i], NULL);
            for (q = 0; q < J[i].n; q++)
                free(J[i].lines[q]);
            free(J[i].lines);
        }
        free(J);
        free(T);
    }
    free(line);
    fclose(f);
    return 0;
}
