from seed import PLAIN, ASAN

SPECS = []


def add(id, prop, edits, demo, needs, breaks, cc=PLAIN):
    SPECS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, cc=cc))


MPI = '''
#include <cry/mpi.h>
static int eq(const cry_mpi *a, const char *s)
{
    cry_mpi t; int r;
    cry_mpi_init_str(&t, 16, s);
    r = cry_mpi_cmp(a, &t) == 0;
    cry_mpi_clear(&t);
    return r;
}
'''

add("c01-add-carry", "C01",
    [("src/mpi/mpi_add_abs.c", "c += (l < t);", "c = (l < t);")],
    MPI + '''
int main(void)
{
    cry_mpi a, b, r;
    cry_mpi_init_str(&a, 16, "ffffffffffffffffffffffffffffffff");
    cry_mpi_init_str(&b, 16, "00000000000000050000000000000001");
    cry_mpi_init(&r);
    if (cry_mpi_add(&r, &a, &b) != 0) return 1;
    return eq(&r, "100000000000000050000000000000000") ? 0 : 1;
}''',
    "a carry into an all-ones digit whose addend is not zero",
    "the carry of the first of the two additions of a column is lost")

add("c01-kara-unbalanced", "C01",
    [("src/mpi/mpi_mul_karatsuba.c", "    x1.used = a->used - hB;\n    y1.used = b->used - hB;",
      "    x1.used = CRY_MIN(a->used - hB, (hB + 1) * 2);\n    y1.used = b->used - hB;")],
    MPI + '''
int main(void)
{
    cry_mpi a, b, r, s; int i, ok;
    cry_mpi_init(&a); cry_mpi_init(&b); cry_mpi_init(&r); cry_mpi_init(&s);
    cry_mpi_set_int(&a, 1); cry_mpi_set_int(&b, 1);
    cry_mpi_shl(&a, &a, 64 * 300);
    cry_mpi_shl(&b, &b, 64 * 70);
    if (cry_mpi_mul(&r, &a, &b) != 0) return 1;
    cry_mpi_set_int(&s, 1);
    cry_mpi_shl(&s, &s, 64 * 370);
    return cry_mpi_cmp(&r, &s) == 0 ? 0 : 1;
}''',
    "operands above the Karatsuba cut-off, one more than about 1.5 times as long as the other",
    "the top digits of the longer operand are dropped")

add("c02-add-back", "C02",
    [("src/mpi/mpi_div_abs.c", "            q.data[i-t-1] = (q.data[i-t-1] - 1UL) & CRY_MPI_DIGIT_MAX;\n        }\n    }\n\n    /*\n     * Now q",
      "        }\n    }\n\n    /*\n     * Now q")],
    MPI + '''
int main(void)
{
    cry_mpi a, b, q, r, t;
    cry_mpi_init_str(&a, 16, "7fffffffffffffff800000000000000000000000000000000000000000000000");
    cry_mpi_init_str(&b, 16, "800000000000000000000000000000000000000000000001");
    cry_mpi_init(&q); cry_mpi_init(&r); cry_mpi_init(&t);
    if (cry_mpi_div(&q, &r, &a, &b) != 0) return 1;
    cry_mpi_mul(&t, &q, &b);
    cry_mpi_add(&t, &t, &r);
    return cry_mpi_cmp(&t, &a) == 0 ? 0 : 1;
}''',
    "a quotient digit whose three-by-two estimate is still one too large (probability about 2^-63 for random operands)",
    "the quotient digit is not corrected after the divisor was added back")

add("c03-gcd-zero-digit", "C03",
    [("src/mpi/mpi_gcd.c", "i++, cnt += CRY_MPI_DIGIT_BITS)", "i++, cnt += CRY_MPI_DIGIT_BITS - 1)")],
    MPI + '''
int main(void)
{
    cry_mpi a, b, g;
    cry_mpi_init_str(&a, 16, "c0000000000000000000000000000000");
    cry_mpi_init_str(&b, 16, "a0000000000000000000000000000000");
    cry_mpi_init(&g);
    if (cry_mpi_gcd(&g, &a, &b) != 0) return 1;
    return eq(&g, "20000000000000000000000000000000") ? 0 : 1;
}''',
    "both operands with a least significant digit equal to zero",
    "the power of two in the gcd is undercounted")

add("c05-mr-rounds", "C05",
    [("src/mpi/mpi_prime.c", "#define MILLER_ITER_NO  5", "#define MILLER_ITER_NO  1")],
    MPI + '''
#include <cry/prng.h>
int main(void)
{
    /* 49939 * 99877: about one base out of four is a liar */
    cry_mpi n, a, b; int i, acc = 0;
    cry_prng_aes_init((const unsigned char *)"0123456789abcdef", 16);
    cry_mpi_init_int(&a, 49939); cry_mpi_init_int(&b, 99877); cry_mpi_init(&n);
    cry_mpi_mul(&n, &a, &b);
    for (i = 0; i < 400; i++)
        acc += cry_mpi_is_prime(&n) == 1;
    return acc > 20 ? 1 : 0;
}''',
    "composites with many strong liars, over many random bases",
    "composites are accepted as primes far more often than five rounds allow")

add("c06-add-equal", "C06",
    [("src/ecp/ecp_add.c", "        if (cry_mpi_is_zero(&num))\n            res = cry_ecp_dbl(pr, p1, grp);",
      "        if (p1 == p2)\n            res = cry_ecp_dbl(pr, p1, grp);")],
    '''
#include <cry/ecp.h>
int main(void)
{
    cry_ecp_grp g; cry_ecp a, b, r, d;
    cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP192R1);
    cry_ecp_init(&a); cry_ecp_init(&b); cry_ecp_init(&r); cry_ecp_init(&d);
    cry_ecp_copy(&a, &g.g); cry_ecp_copy(&b, &g.g);
    if (cry_ecp_add(&r, &a, &b, &g) != 0 || cry_ecp_dbl(&d, &a, &g) != 0) return 1;
    return cry_mpi_cmp(&r.x, &d.x) == 0 && cry_mpi_cmp(&r.y, &d.y) == 0 ? 0 : 1;
}''',
    "the addition of two equal points held in distinct objects",
    "P + P gives infinity unless both operands are the same object")

add("c08-cbc-inplace", "C08",
    [("src/crypt/cbc.c", "            memcpy(init_iv, ctx->ctr, ctx->ctrlen);\n            memcpy(ctx->ctr, src + buf_siz - ctx->ctrlen, ctx->ctrlen);\n            cry_memxor2(dst + ctx->ctrlen, buf + ctx->ctrlen,\n                        src, buf_siz - ctx->ctrlen);",
      "            memcpy(init_iv, ctx->ctr, ctx->ctrlen);\n            cry_memxor2(dst + ctx->ctrlen, buf + ctx->ctrlen,\n                        src, buf_siz - ctx->ctrlen);\n            memcpy(ctx->ctr, src + buf_siz - ctx->ctrlen, ctx->ctrlen);")],
    '''
#include <cry/cbc.h>
#include <cry/aes.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
int main(void)
{
    unsigned char m[1040], c[1040], k[16] = {1}, iv[16] = {2}; size_t i;
    cry_aes_ctx a; cry_cbc_ctx x;
    memset(&a, 0, sizeof(a));
    for (i = 0; i < sizeof(m); i++) m[i] = (unsigned char)(i * 7);
    cry_cbc_init(&x, &a, &itf);
    cry_cbc_key_set(&x, k, 16); cry_cbc_iv_set(&x, iv, 16);
    cry_cbc_encrypt(&x, c, m, sizeof(m));
    cry_cbc_key_set(&x, k, 16); cry_cbc_iv_set(&x, iv, 16);
    cry_cbc_decrypt(&x, c, c, sizeof(c));
    return memcmp(c, m, sizeof(m)) ? 1 : 0;
}''',
    "in-place CBC decryption of more than 512 bytes in one call",
    "the chaining block is taken after it was overwritten with plaintext")

add("c09-gcm-ctr128", "C09",
    [("src/crypt/gcm.c", "            cry_memxor2(dst, src, buffer, CRY_GCM_BLOCK_SIZE);\n            CRY_INCREMENT_BE(&ctx->ctr[CRY_GCM_BLOCK_SIZE-4], 4);",
      "            cry_memxor2(dst, src, buffer, CRY_GCM_BLOCK_SIZE);\n            CRY_INCREMENT_BE(ctx->ctr, CRY_GCM_BLOCK_SIZE);")],
    '''
#include <cry/gcm.h>
#include <cry/aes.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
int main(void)
{
    unsigned char k[16] = {1}, iv[12] = {2}, m[64], c[64]; size_t i;
    cry_aes_ctx a; cry_gcm_ctx x;
    for (i = 0; i < sizeof(m); i++) m[i] = c[i] = (unsigned char)i;
    memset(&a, 0, sizeof(a));
    cry_gcm_init(&x, &a, &itf);
    cry_gcm_key_set(&x, k, 16);
    cry_gcm_iv_set(&x, iv, 12);
    memset(x.ctr + 12, 0xff, 4);
    cry_gcm_encrypt(&x, c, c, 64);              /* in place */
    cry_gcm_iv_set(&x, iv, 12);
    memset(x.ctr + 12, 0xff, 4);
    { unsigned char o[64]; cry_gcm_encrypt(&x, o, m, 64); return memcmp(o, c, 64) ? 1 : 0; }
}''',
    "in-place GCM with an IV whose derived 32 bit counter wraps within the message",
    "the carry of the 32 bit counter spills into the fixed part of the counter block")

add("c10-trivium-rekey", "C10",
    [("src/crypt/trivium.c", "    for (; i < CRY_TRIVIUM_KEYLEN; i++)\n        ctx->key[i] = 0;\n", "")],
    '''
#include <cry/trivium.h>
int main(void)
{
    unsigned char k[10], iv[10] = {5}, z[16] = {0}, a[16], b[16];
    cry_trivium_ctx x;
    memset(k, 0xEE, 10);
    cry_trivium_init(&x);
    cry_trivium_key_set(&x, k, 4); cry_trivium_iv_set(&x, iv, 10); cry_trivium_crypt(&x, a, z, 16);
    cry_trivium_key_set(&x, k, 10);
    cry_trivium_key_set(&x, k, 4); cry_trivium_iv_set(&x, iv, 10); cry_trivium_crypt(&x, b, z, 16);
    return memcmp(a, b, 16) ? 1 : 0;
}''',
    "a context keyed with a short key after a longer one",
    "the tail of the previous key stays in use")

add("c13-crc-dnp-entry", "C13",
    [("src/crc/crc16.c", "        ctx->crc = ctx->tab[(*buf++ ^ ctx->crc) & 0xFF] ^ (ctx->crc >> 8);\n}\n\nuint16_t",
      "        ctx->crc = ctx->tab[(*buf++ ^ ctx->crc) & 0xFF] ^\n                   (ctx->crc == 0x8000 ? 0 : ctx->crc >> 8);\n}\n\nuint16_t")],
    '''
#include <cry/crc.h>
int main(void)
{
    /* start values are arbitrary: crc(0x8000, byte 0) = tab[0] ^ 0x80 = 0x80 */
    cry_crc16_ctx c; unsigned char z = 0; static uint16_t tab[256];
    cry_crc16_init(&c, 0x8000, tab, 0);
    cry_crc16_update(&c, &z, 1);
    return cry_crc16_final(&c) == 0x80 ? 0 : 1;
}''',
    "an intermediate CRC register of exactly 0x8000 (one in 65536 per byte)",
    "the high byte is lost for one register value")

add("c14-pad-zero", "C14",
    [("src/crypt/rsa.c", "    while (n-- > 0) {\n        if (dst[n] == 0)\n            dst[n] = 1;", "    while (--n > 0) {\n        if (dst[n] == 0)\n            dst[n] = 1;")],
    '''
#include <cry/rsa.h>
#include <cry/prng.h>
int main(void)
{
    cry_rsa_ctx r; unsigned char *o, *p, m[5] = "hello"; size_t on, pn; int i, bad = 0;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_rsa_init(&r, CRY_RSA_PADDING_PKCS_V15);
    if (cry_rsa_keygen(&r, 256, 65537) != 0) return 2;
    for (i = 0; i < 2000; i++) {
        if (cry_rsa_encrypt(&r, &o, &on, m, 5) != 0) return 2;
        if (cry_rsa_decrypt(&r, &p, &pn, o, on) != 0) bad++;
        else { if (pn != 5 || memcmp(p, m, 5)) bad++; free(p); }
        free(o);
    }
    return bad ? 1 : 0;
}''',
    "a random padding that begins with a zero byte (one encryption in 256)",
    "the first padding byte can be zero, so that decryption fails")

add("c15-dsa-nomod", "C15",
    [("src/crypt/dsa.c", "    CHK(cry_mpi_mod_exp(&u2, &ctx->pub, &w, &ctx->p));", "    CHK(cry_mpi_mod_exp(&u2, &ctx->pub, cry_mpi_is_zero(&z) ? &z : &w, &ctx->p));")],
    '''
#include <cry/dsa.h>
#include <cry/prng.h>
int main(void)
{
    /* p = 23, q = 11, g = 4 */
    cry_dsa_ctx d; cry_dsa_sig s; unsigned char z = 0; int i, bad = 0;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_dsa_init(&d);
    cry_mpi_set_int(&d.p, 23); cry_mpi_set_int(&d.q, 11); cry_mpi_set_int(&d.g, 4);
    cry_mpi_set_int(&d.pvt, 3); cry_mpi_set_int(&d.pub, 18);
    cry_mpi_init(&s.r); cry_mpi_init(&s.s);
    for (i = 0; i < 50; i++) {
        if (cry_dsa_sign(&d, &s, &z, 1) != 0) return 2;
        bad += cry_dsa_verify(&d, &s, &z, 1) != 0;
    }
    return bad ? 1 : 0;
}''',
    "a message that is numerically zero modulo q",
    "valid signatures of messages congruent to zero are refused")

add("c16-ecdsa-cmp", "C16",
    [("src/crypt/ecdsa.c", "    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile\n", "")],
    '''
#include <cry/ecdsa.h>
int main(void)
{
    /* y^2 = x^3 + 2x + 2 over F17 has 19 points, every x is below 19; use a curve with n < p instead:
       y^2 = x^3 + 2x + 3 has prime order over some small field */
    int p, a, b, x, y, bad = 0;
    for (p = 11; p < 60; p += 2) {
        int i, pr = 1;
        for (i = 3; i * i <= p; i += 2) if (p % i == 0) pr = 0;
        if (!pr) continue;
        for (a = 1; a < 4; a++) for (b = 1; b < 6; b++) {
            int n = 1, gx = -1, gy = 0;
            for (x = 0; x < p; x++) for (y = 0; y < p; y++)
                if ((y * y - x * x * x - a * x - b) % p == 0) { n++; if (y && gx < 0) { gx = x; gy = y; } }
            if (n >= p || n < 7) continue;
            for (i = 2, pr = 1; i * i <= n; i++) if (n % i == 0) pr = 0;
            if (!pr || (4 * a * a * a + 27 * b * b) % p == 0) continue;
            {
                cry_ecdsa_ctx c; cry_ecdsa_sig s; unsigned char m = 0x55; int k;
                cry_ecdsa_init(&c, -1);
                cry_mpi_set_int(&c.grp.p, p); cry_mpi_set_int(&c.grp.a, a); cry_mpi_set_int(&c.grp.b, b);
                cry_mpi_set_int(&c.grp.g.x, gx); cry_mpi_set_int(&c.grp.g.y, gy); cry_mpi_set_int(&c.grp.g.z, 1);
                cry_mpi_set_int(&c.grp.n, n);
                cry_mpi_init(&s.r); cry_mpi_init(&s.s);
                if (cry_ecdsa_keygen(&c) != 0) return 2;
                for (k = 0; k < 20; k++) {
                    if (cry_ecdsa_sign(&c, &s, &m, 1) != 0) return 2;
                    bad += cry_ecdsa_verify(&c, &s, &m, 1) != 0;
                }
            }
        }
    }
    return bad ? 1 : 0;
}''',
    "a signature point whose x coordinate is not lower than the group order (probability about 2^-128 on the standard curves)",
    "valid signatures are refused because the coordinate is not reduced modulo the order")

add("c17-elgamal-order", "C17",
    [("src/crypt/elgamal.c", "    if (len > cry_mpi_count_bytes(&ctx->p))\n        return -1;\n\n    if ((res = cry_mpi_init_list(&r, &z, &t",
      "    if (len > cry_mpi_count_bytes(&ctx->p))\n        len = cry_mpi_count_bytes(&ctx->p);\n\n    if ((res = cry_mpi_init_list(&r, &z, &t")],
    '''
#include <cry/elgamal.h>
#include <cry/prng.h>
int main(void)
{
    cry_elgamal_ctx d; cry_elgamal_sig s; unsigned char m[3] = {7, 9, 1};
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_elgamal_init(&d);
    cry_mpi_set_int(&d.p, 467); cry_mpi_set_int(&d.g, 2); cry_mpi_set_int(&d.d, 127); cry_mpi_set_int(&d.y, 132);
    cry_mpi_init(&s.r); cry_mpi_init(&s.s);
    if (cry_elgamal_sign2(&d, &s, m, 2) != 0 || cry_elgamal_verify2(&d, &s, m, 2) != 0) return 2;
    return cry_elgamal_verify2(&d, &s, m, 3) == 0 ? 1 : 0;
}''',
    "verification of a message longer than the modulus whose prefix was signed",
    "messages that extend the signed one are accepted")

add("c18-dh-token", "C18",
    [("src/crypt/dh.c", "    return cry_mpi_store_bin(&ctx->Z, out, out_len, 1);", "    return cry_mpi_store_bin(&ctx->Z, out, out_len, 0);")],
    '''
#include <cry/dh.h>
int main(void)
{
    cry_dh_ctx d; unsigned char o[2]; memset(o, 0xAA, 2);
    cry_dh_init(&d);
    cry_mpi_set_int(&d.p, 65521); cry_mpi_set_int(&d.g, 2); cry_mpi_set_int(&d.e, 3);
    cry_mpi_set_int(&d.Y, 2);
    if (cry_dh_finalize(&d) != 0 || cry_dh_get_sec(&d, o, 2) != 0) return 2;
    return o[0] == 0 && o[1] == 8 ? 0 : 1;
}''',
    "a shared secret with leading zero bytes",
    "the secret is stored without its leading zeros, the rest of the buffer keeps stale bytes")

add("c19-unwrap-check", "C19",
    [("src/utils/aes_wrap.c", "    for (i = 0; i < 8; i++) {\n        if (b[i] != INIT_VAL) {", "    for (i = 0; i < 7; i++) {\n        if (b[i] != INIT_VAL) {")],
    '''
#include <cry/utils.h>
#include <cry/aes.h>
int main(void)
{
    /* wrap by hand with a check value that differs from A6..A6 in the last byte */
    unsigned char k[16] = {1}, in[16] = {2}, c[24], o[16], b[16]; cry_aes_ctx a; int i, j;
    memset(c, 0xA6, 8); c[7] = 0xA5;
    memcpy(c + 8, in, 16);
    cry_aes_init(&a); cry_aes_key_set(&a, k, 16);
    for (i = 0; i < 6; i++) for (j = 1; j <= 2; j++) {
        memcpy(b, c, 8); memcpy(b + 8, c + 8 * j, 8);
        cry_aes_encrypt(&a, b, b, 16);
        memcpy(c, b, 8); c[7] ^= 2 * i + j; memcpy(c + 8 * j, b + 8, 8);
    }
    return cry_aes_unwrap(o, c, 16, k, 16) == 0 ? 1 : 0;
}''',
    "wrapped data whose check value is wrong in its last byte only",
    "one of the eight check bytes is not compared")

add("c20-b64-alphabet", "C20",
    [("src/crypt/base64.c", "     49,  50,  51, 255, 255, 255, 255, 255,", "     49,  50,  51, 255,  63, 255, 255, 255,")],
    '''
#include <cry/base64.h>
int main(void)
{
    char o[8];
    return cry_base64_decode(o, "ab|d", 4) == (size_t)-1 ? 0 : 1;
}''',
    "the single foreign character '|'",
    "a character outside of the alphabet is decoded instead of refused")

add("c21-hill-det", "C21",
    [("src/crypt/hill.c", "            det += mtx[i] * ((i & 1) ? -1 : 1) * mtx_det(b, n-1);", "            det += mtx[i] * ((i & 5) == 1 ? -1 : 1) * mtx_det(b, n-1);")],
    '''
#include <cry/hill.h>
int main(void)
{
    cry_hill_ctx h; unsigned char m[64], c[64]; int n, i, bad = 0, t;
    srand(3);
    for (n = 2; n <= 6; n++) for (t = 0; t < 40; t++) {
        unsigned char k[CRY_HILL_KEYLEN_MAX];
        if (n * n > CRY_HILL_KEYLEN_MAX) continue;
        for (i = 0; i < n * n; i++) k[i] = rand();
        if (cry_hill_init(&h, k, NULL, n * n) != 0) continue;
        for (i = 0; i < n * 2; i++) m[i] = i;
        cry_hill_encrypt(&h, c, m, n * 2);
        cry_hill_decrypt(&h, c, c, n * 2);
        bad += memcmp(c, m, n * 2) != 0;
    }
    return bad ? 1 : 0;
}''',
    "key matrices of dimension six and more",
    "the sign of the cofactors of the sixth column is wrong, decryption does not invert encryption")

add("c22-xor-case4", "C22",
    [("src/crypt/memxor.c", "    } else if (src1 + n < src2) {", "    } else if (src1 + n <= src2 + 1) {")],
    '''
#include <cry/memxor.h>
int main(void)
{
    unsigned char b[40], e[8]; int i, n = 8, s1 = 4, s2 = 11, d = 7;
    for (i = 0; i < 40; i++) b[i] = i * 11 + 3;
    for (i = 0; i < n; i++) e[i] = b[s1 + i] ^ b[s2 + i];
    cry_memxor2(b + d, b + s1, b + s2, n);
    return memcmp(b + d, e, n) ? 1 : 0;
}''',
    "sources that overlap by exactly one byte and a destination overlapping both",
    "the in-place rotation is used where the sources overlap")

add("c23-prng-reseed", "C23",
    [("src/prng/prng_aes.c", "    prng_ctx.ix = 0;\n", "")],
    '''
#include <cry/prng.h>
int main(void)
{
    unsigned char a[40], b[40];
    cry_prng_aes_init((const unsigned char *)"0123456789abcdef", 16);
    cry_prng_aes_rand(a, 40);
    cry_prng_aes_init((const unsigned char *)"0123456789abcdef", 16);
    cry_prng_aes_rand(b, 40);
    return memcmp(a, b, 40) ? 1 : 0;
}''',
    "seeding again after a request that left part of a block",
    "bytes left from before the seeding are handed out")

add("c24-hmac-key-read", "C24",
    [("src/crypt/hmac.c", "        memcpy(ctx->key, key, key_len);", "        memcpy(ctx->key, key, BLOCK_SIZE);")],
    '''
#include <cry/hmac.h>
#include <cry/md5.h>
static cry_hash_itf itf = { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear,
    (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest };
int main(void)
{
    unsigned char *k = malloc(5), o[16]; cry_md5_ctx s; cry_hmac_ctx h;
    memset(k, 1, 5);
    cry_hmac_init(&h, &s, &itf, 16, k, 5); cry_hmac_digest(&h, o);
    free(k);
    return 0;
}''',
    "an HMAC key shorter than a block in an exact-size buffer",
    "reads behind the key buffer (the result is right)", cc=ASAN)

add("c25-rsa-malloc", "C25",
    [("src/crypt/rsa.c", "    if ((res = cry_mpi_init_list(&c, &m, (cry_mpi *)NULL)) != 0)\n        goto e;\n\n    if (ctx->padding != CRY_RSA_PADDING_NONE) {\n        if ((res =",
      "    cry_mpi_init_list(&c, &m, (cry_mpi *)NULL);\n\n    if (ctx->padding != CRY_RSA_PADDING_NONE) {\n        if ((res =")],
    '''
#include <cry/rsa.h>
#include <cry/prng.h>
#include <sys/wait.h>
#include <unistd.h>
static int on, cnt, at;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (on && cnt++ == at) return NULL; return __real_malloc(n); }
int main(void)
{
    cry_rsa_ctx r; unsigned char *o, m[5] = "hello"; size_t n; int st, bad = 0;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_rsa_init(&r, CRY_RSA_PADDING_PKCS_V15);
    if (cry_rsa_keygen(&r, 256, 65537) != 0) return 2;
    for (at = 0; at < 12; at++) {
        pid_t p = fork();
        if (p == 0) { on = 1; cnt = 0; _exit(cry_rsa_encrypt(&r, &o, &n, m, 5) != 0 ? 0 : cnt > at ? 1 : 0); }
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    }
    return bad;
}''',
    "the allocation of the first temporary integer of an RSA encryption fails",
    "uninitialised integers are used and released",
    cc='gcc -w -O1 -Iinclude -Isrc "$d/demo.c" libcry.a -Wl,--wrap=malloc -o "$t/demo" || exit 2')

add("c26-elgamal-clear", "C26",
    [("src/crypt/elgamal.c", "    cry_mpi_clear_list(&ctx->p, &ctx->d, &ctx->g, &ctx->y, (cry_mpi *)NULL);\n    cry_memset", "    cry_mpi_clear_list(&ctx->p, &ctx->g, &ctx->y, (cry_mpi *)NULL);\n    cry_memset")],
    '''
#include <cry/elgamal.h>
static long live;
void *__real_malloc(size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
int main(void)
{
    cry_elgamal_ctx c;
    cry_elgamal_init(&c);
    cry_elgamal_clear(&c);
    return live ? 1 : 0;
}''',
    "clearing an ElGamal context",
    "the private key is not released and stays in memory",
    cc='gcc -w -O1 -Iinclude -Isrc "$d/demo.c" libcry.a -Wl,--wrap=malloc,--wrap=free -o "$t/demo" || exit 2')

add("c27-ctr-static", "C27",
    [("src/crypt/ctr.c", "    unsigned char buf[BUF_LEN];", "    static unsigned char buf[BUF_LEN];")],
    '''
#include <cry/ctr.h>
#include <cry/aes.h>
#include <pthread.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static volatile int bad;
static void *run(void *p)
{
    unsigned char k[16], iv[16] = {0}, m[4096], first[4096]; cry_aes_ctx a; cry_ctr_ctx x; int i;
    memset(k, *(int *)p, 16); memset(&a, 0, sizeof(a));
    cry_ctr_init(&x, &a, &itf); cry_ctr_key_set(&x, k, 16);
    memset(first, 0, sizeof(first));
    cry_ctr_iv_set(&x, iv, 16);
    { unsigned char z[4096] = {0}; cry_ctr_encrypt(&x, first, z, 4096); } /* not in place: no buffer */
    for (i = 0; i < 3000 && !bad; i++) {
        cry_ctr_iv_set(&x, iv, 16);
        memset(m, 0, sizeof(m));
        cry_ctr_encrypt(&x, m, m, sizeof(m));
        if (memcmp(m, first, sizeof(m))) bad = 1;
    }
    return NULL;
}
int main(void)
{
    pthread_t t[4]; int i, id[4];
    for (i = 0; i < 4; i++) { id[i] = i; pthread_create(&t[i], NULL, run, &id[i]); }
    for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return bad;
}''',
    "two threads that encrypt in CTR mode, in place, at the same time with their own contexts",
    "contexts share a key stream buffer", cc=PLAIN.replace("libcry.a", "libcry.a -pthread"))

add("c28-setint-digits", "C28",
    [("src/mpi/mpi_shr.c", "    if (n >= CRY_MPI_DIGIT_BITS)\n        cry_mpi_shrd(c, n / CRY_MPI_DIGIT_BITS);", "    if (n > 63)\n        cry_mpi_shrd(c, n / CRY_MPI_DIGIT_BITS);")],
    MPI + '''
int main(void)
{
    cry_mpi a;
    cry_mpi_init_str(&a, 16, "123456789abcdef0");
    cry_mpi_shr(&a, &a, 40);
    return eq(&a, "123456") ? 0 : 1;
}''',
    "a configuration with digits of 8, 16 or 32 bits",
    "right shifts by less than 64 bits shift only by their remainder modulo the digit size",
    cc='gcc -w -O1 -DCRY_MPI_DIGIT_MAX=4294967295UL -DCRY_MPI_INV_EUCLID -DCRY_MPI_MUL_COMBA -Iinclude -Isrc "$d/demo.c" $(find src -name "*.c") -o "$t/demo" || exit 2')

add("c04-radix-digit", "C04",
    [("src/mpi/mpi_str.c", "        if (radix <= d)\n", "        if (radix < d)\n")],
    MPI + '''
int main(void)
{
    cry_mpi a; int r, bad = 0;
    cry_mpi_init(&a);
    r = cry_mpi_load_str(&a, 8, "1780"); if (r == 0) bad = 1;
    cry_mpi_clear(&a);
    return bad;
}''',
    "text with a digit equal to the radix",
    "malformed text is accepted and read as a number")

add("c07-aes-turn", "C07",
    [("src/crypt/aes.c", "    for (i = 4; i < 4 * nr; i++) {", "    for (i = 4; i < (n == 3 ? 48 : 4 * nr) && i < 4 * nr; i++) {")],
    '''
#include <cry/aes.h>
int main(void)
{
    unsigned char k[32], m[16] = {7}, c[16], d[16]; int i; cry_aes_ctx x;
    for (i = 0; i < 32; i++) k[i] = i * 3;
    cry_aes_init(&x); cry_aes_key_set(&x, k, 32);
    cry_aes_encrypt(&x, c, m, 16);
    cry_aes_decrypt(&x, d, c, 16);
    if (memcmp(d, m, 16)) return 1;
    cry_aes_encrypt(&x, d, m, 16);
    return memcmp(d, c, 16) ? 1 : 0;
}''',
    "AES-256 encryption after a decryption with the same context and key",
    "the encryption key schedule is not fully restored after a decryption")

add("c07-des-short-rekey", "C07",
    [("src/crypt/des.c", "    memset(ctx, 0, sizeof(*ctx));\n    if (size > CRY_DES_BLOCK_SIZE*3)\n        size = CRY_DES_BLOCK_SIZE*3;\n    ctx->keylen = size;",
      "    if (size > CRY_DES_BLOCK_SIZE*3)\n        size = CRY_DES_BLOCK_SIZE*3;\n    if (size > ctx->keylen)\n        ctx->keylen = size;")],
    '''
#include <cry/des.h>
int main(void)
{
    unsigned char k[24], m[8] = {7}, c[8], d[8]; int i; cry_des_ctx x;
    for (i = 0; i < 24; i++) k[i] = i * 5;
    cry_des_init(&x); cry_des_key_set(&x, k, 8); cry_des_encrypt(&x, c, m, 8);
    cry_des_key_set(&x, k, 24);
    cry_des_key_set(&x, k, 8); cry_des_encrypt(&x, d, m, 8);
    return memcmp(d, c, 8) ? 1 : 0;
}''',
    "a context keyed for single DES after triple DES",
    "the longer key length stays in force")

add("c11-md5-carry", "C11",
    [("src/hash/md5.c", "    if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])\n", "    if ((ctx->len[0] + (uint32_t)size) < ctx->len[0])\n")],
    '''
#include <cry/md5.h>
int main(void)
{
    /* MD5 of 2^29 zero bytes */
    static unsigned char z[1 << 20]; unsigned char o[16]; int i; cry_md5_ctx c; char h[33];
    FILE *f; char cmd[] = "head -c 536870912 /dev/zero | md5sum"; char ref[33] = {0};
    cry_md5_init(&c);
    for (i = 0; i < 512; i++) cry_md5_update(&c, z, sizeof(z));
    cry_md5_digest(&c, o);
    for (i = 0; i < 16; i++) sprintf(h + 2 * i, "%02x", o[i]);
    f = popen(cmd, "r"); if (!f || fread(ref, 1, 32, f) != 32) return 0;
    return strcmp(h, ref) ? 1 : 0;
}''',
    "a message of 512 MiB or more, fed in smaller pieces",
    "the carry into the upper half of the bit length is lost")

add("c12-cmac-k1", "C12",
    [("src/crypt/cmac.c", "    if (msb != 0)\n        k1[CRY_CMAC_BLOCK_SIZE-1] ^= 0x87;", "    if (msb == 0x80 && (k1[CRY_CMAC_BLOCK_SIZE-1] & 0x80) == 0)\n        k1[CRY_CMAC_BLOCK_SIZE-1] ^= 0x87;")],
    '''
#include <cry/cmac.h>
#include <cry/aes.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
int main(void)
{
    unsigned char k[16] = {3}, m[16] = {9}, a[16], l[16], z[16] = {0}; cry_aes_ctx x; cry_cmac_ctx c; int i, j, msb;
    for (j = 0; j < 64; j++) {
        k[1] = j;
        memset(&x, 0, sizeof(x));
        cry_cmac_init(&c, &x, &itf, k, 16); cry_cmac_update(&c, m, 16); cry_cmac_digest(&c, a);
        cry_aes_encrypt(&x, l, z, 16);
        msb = l[0] >> 7;
        for (i = 0; i < 16; i++) l[i] = l[i] << 1 | (i < 15 ? l[i + 1] >> 7 : 0);
        if (msb) l[15] ^= 0x87;
        for (i = 0; i < 16; i++) l[i] ^= m[i];
        cry_aes_encrypt(&x, l, l, 16);
        if (memcmp(a, l, 16)) return 1;
    }
    return 0;
}''',
    "a key whose derived block has bit 0 and bit 120 set, and a message of whole blocks",
    "the first subkey is wrong for a quarter of the keys")

add("c29-padding-bias", "C29",
    [("src/crypt/rsa.c", "        if (dst[n] == 0)\n            dst[n] = 1;", "        if ((dst[n] & 0x0F) == 0)\n            dst[n] = 1;")],
    '''
#include <cry/rsa.h>
#include <cry/prng.h>
int main(void)
{
    cry_rsa_ctx r; unsigned char *o, b[64], m[3] = "abc"; size_t n; int i, j, seen = 0; cry_mpi x;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_rsa_init(&r, CRY_RSA_PADDING_PKCS_V15);
    if (cry_rsa_keygen(&r, 512, 65537) != 0) return 2;
    cry_mpi_init(&x);
    for (i = 0; i < 60; i++) {
        if (cry_rsa_encrypt(&r, &o, &n, m, 3) != 0) return 2;
        cry_mpi_load_bin(&x, o, n); free(o);
        cry_mpi_mod_exp(&x, &x, &r.d, &r.n);
        cry_mpi_store_bin(&x, b, 64, 1);
        for (j = 2; j < 60; j++) seen += (b[j] & 0x0F) == 0;
    }
    return seen == 0;
}''',
    "the distribution of the padding bytes over several encryptions",
    "padding bytes never take the 15 values 0x10, 0x20, ... 0xf0")

add("c27-cbc-static", "C27",
    [("src/crypt/cbc.c", "        unsigned char init_iv[CRY_CBC_BLOCK_MAX];", "        static unsigned char init_iv[CRY_CBC_BLOCK_MAX];")],
    '''
#include <cry/cbc.h>
#include <cry/aes.h>
#include <pthread.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static volatile int bad;
static void *run(void *p)
{
    unsigned char k[16], iv[16], m[256], c[256], d[256]; cry_aes_ctx a; cry_cbc_ctx x; long i;
    memset(k, *(int *)p, 16); memset(iv, 3 + *(int *)p, 16); memset(m, 0, sizeof(m));
    cry_aes_init(&a);
    cry_cbc_init(&x, &a, &itf); cry_cbc_key_set(&x, k, 16);
    cry_cbc_iv_set(&x, iv, 16);
    cry_cbc_encrypt(&x, c, m, sizeof(m));
    for (i = 0; i < 1500000 && !bad; i++) {
        memcpy(d, c, sizeof(c));
        cry_cbc_iv_set(&x, iv, 16);
        cry_cbc_decrypt(&x, d, d, sizeof(d));
        if (memcmp(d, m, sizeof(m))) bad = 1;
    }
    return NULL;
}
int main(void)
{
    pthread_t t[6]; int i, id[6];
    for (i = 0; i < 6; i++) { id[i] = i; pthread_create(&t[i], NULL, run, &id[i]); }
    for (i = 0; i < 6; i++) pthread_join(t[i], NULL);
    return bad;
}''',
    "two threads that decrypt in CBC mode, in place, at the same moment with their own contexts",
    "contexts share the saved chaining block for a few instructions", cc=PLAIN.replace("libcry.a", "libcry.a -pthread"))

add("c26-aes-nr", "C26",
    [("src/crypt/aes.c", "    cry_memset(ctx, 0, sizeof(*ctx));", "    cry_memset(ctx->keys, 0, 16 * ((ctx->nr & 15) + 1));\n    ctx->nr = 0;")],
    '''
#include <cry/aes.h>
int main(void)
{
    unsigned char k[32]; size_t i; int bad = 0; cry_aes_ctx a;
    memset(k, 0x5A, 32);
    cry_aes_init(&a);
    cry_aes_key_set(&a, k, 32);
    cry_aes_key_set(&a, k, 16);
    cry_aes_clear(&a);
    for (i = 0; i < sizeof(a); i++) bad |= ((unsigned char *)&a)[i];
    return bad ? 1 : 0;
}''',
    "a context keyed with a short AES key after a long one, then cleared",
    "the last round keys of the long key survive the clearing")

add("c05-mr-one", "C05",
    [("src/mpi/mpi_prime.c", "        if (z.used == 1 && z.data[0] == 1) {\n            res = 0;", "        if (z.used == 1 && z.data[0] == 1) {\n            res = 1;")],
    '''
#include <cry/mpi.h>
#include <cry/prng.h>
static int prime(unsigned long n) { unsigned long i; for (i = 2; i * i <= n; i++) if (n % i == 0) return 0; return 1; }
int main(void)
{
    unsigned long k; int found = 0, bad = 0; cry_mpi a, t;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    cry_mpi_init(&a); cry_mpi_init(&t);
    for (k = 171; found < 8; k++) { /* Carmichael numbers (6k+1)(12k+1)(18k+1) without small factors */
        if (!prime(6*k+1) || !prime(12*k+1) || !prime(18*k+1)) continue;
        found++;
        cry_mpi_set_int(&a, 6*k+1); cry_mpi_set_int(&t, 12*k+1); cry_mpi_mul(&a, &a, &t);
        cry_mpi_set_int(&t, 18*k+1); cry_mpi_mul(&a, &a, &t);
        if (cry_mpi_is_prime(&a) != 0) bad = 1;
    }
    return bad;
}''',
    "Carmichael numbers and other composites for which a square root of one other than minus one turns up",
    "a non-trivial square root of one counts as a proof of primality")

add("c08-ctr-reuse", "C08",
    [("src/crypt/ctr.c", "            encrypt(ciph, buf, ctx->ctr, ctx->ctrlen);\n            CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);\n", "            encrypt(ciph, buf, ctx->ctr, ctx->ctrlen);\n")],
    '''
#include <cry/ctr.h>
#include <cry/aes.h>
static cry_ciph_itf itf = {
    (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
    (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
int main(void)
{
    unsigned char k[16] = {1}, iv[16] = {2}, m[5] = {0}, c[5], d[5]; cry_aes_ctx a; cry_ctr_ctx x;
    cry_aes_init(&a); cry_ctr_init(&x, &a, &itf); cry_ctr_key_set(&x, k, 16); cry_ctr_iv_set(&x, iv, 16);
    cry_ctr_encrypt(&x, c, m, 5);
    cry_ctr_encrypt(&x, d, m, 5);
    return memcmp(c, d, 5) == 0;
}''',
    "a message encrypted with CTR mode after one whose length was not a multiple of the block length, without a new IV",
    "two messages are encrypted with the same key stream")

add("c18-dh-exponent", "C18",
    [("src/crypt/dh.c", "    return cry_mpi_mod_exp(&ctx->Y, &ctx->g, &ctx->e, &ctx->p);",
      "    int res;\n    if (cry_mpi_cmp_abs(&ctx->e, &ctx->p) >= 0 &&\n        (res = cry_mpi_mod(&ctx->e, &ctx->e, &ctx->p)) != 0)\n        return res;\n    return cry_mpi_mod_exp(&ctx->Y, &ctx->g, &ctx->e, &ctx->p);")],
    '''
#include <cry/dh.h>
int main(void)
{
    cry_dh_ctx d; unsigned char o[2];
    cry_dh_init(&d);
    cry_mpi_set_int(&d.p, 65521); cry_mpi_set_int(&d.g, 17); cry_mpi_set_int(&d.e, 65520 + 1);
    if (cry_dh_agree(&d) != 0 || cry_dh_get_tok(&d, o, 2) != 0) return 2;
    return o[0] == 0 && o[1] == 17 ? 0 : 1;
}''',
    "a secret exponent not smaller than the modulus",
    "the secret exponent is reduced by the modulus instead of the group order: the token is wrong and the key altered")

add("c25-elg-verify", "C25",
    [("src/crypt/elgamal.c", "    CHK(cry_mpi_mod_exp(&z, &ctx->g, &z, &ctx->p));", "    if (cry_mpi_mod_exp(&z, &ctx->g, &z, &ctx->p) != 0)\n        goto e;")],
    '''
#include <cry/elgamal.h>
static long cnt, at = -1;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { if (at >= 0 && cnt++ == at) return NULL; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (at >= 0 && cnt++ == at) return NULL; return __real_realloc(p, n); }
int main(void)
{
    cry_elgamal_ctx c; cry_elgamal_sig s; unsigned char m[1] = {9}; long k; int bad = 0, r;
    cry_elgamal_init(&c);
    cry_mpi_init(&s.r); cry_mpi_init(&s.s);
    cry_mpi_set_int(&c.p, 65521); cry_mpi_set_int(&c.g, 17); cry_mpi_set_int(&c.y, 33);
    cry_mpi_set_int(&s.r, 1234); cry_mpi_set_int(&s.s, 4321);
    if (cry_elgamal_verify2(&c, &s, m, 1) == 0) return 2;
    for (k = 0; k < 2000; k++) {
        cnt = 0; at = k;
        r = cry_elgamal_verify2(&c, &s, m, 1);
        at = -1;
        if (r == 0) bad = 1;
        if (cnt <= k) break;
    }
    return bad;
}''',
    "an allocation fails in the last modular exponentiation of an ElGamal verification",
    "a forged signature is accepted",
    cc='gcc -w -O1 -Iinclude -Isrc "$d/demo.c" libcry.a -Wl,--wrap=malloc,--wrap=realloc -o "$t/demo" || exit 2')

add("c06-add-infinity", "C06",
    [("src/ecp/ecp_add.c", "    if (cry_ecp_is_zero(p2))\n        return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;",
      "    if (cry_ecp_is_zero(p2)) {\n        if (pr == p1)\n            return 0;\n        if ((res = cry_mpi_copy(&pr->x, &p1->x)) != 0)\n            return res;\n        return cry_mpi_copy(&pr->y, &p1->y);\n    }")],
    '''
#include <cry/ecp.h>
int main(void)
{
    cry_ecp_grp g; cry_ecp a, z;
    cry_ecp_grp_init(&g); cry_ecp_init(&a); cry_ecp_init(&z);
    if (cry_ecp_grp_load(&g, CRY_ECP_GRP_SECP192R1) != 0) return 2;
    cry_ecp_set_zero(&z);
    cry_ecp_add(&z, &g.g, &z, &g);
    return !(cry_mpi_cmp(&z.x, &g.g.x) == 0 && cry_mpi_cmp(&z.y, &g.g.y) == 0 && !cry_ecp_is_zero(&z));
}''',
    "a sum with the point at infinity on the right stored in a point that was infinity",
    "the sum stays the point at infinity")

add("c29-dsa-short-key", "C29",
    [("src/crypt/dsa.c", "        CHK(secret_gen(&ctx->pvt, &ctx->q));",
      "        CHK(secret_gen(&ctx->pvt, &ctx->q));\n        CHK(cry_mpi_shr(&ctx->pvt, &ctx->pvt, 16));")],
    '''
#include <cry/dsa.h>
#include <cry/prng.h>
int main(void)
{
    cry_dsa_ctx d; int i, full = 0;
    cry_prng_aes_init((const unsigned char *)"seedseedseedseed", 16);
    for (i = 0; i < 8; i++) {
        cry_dsa_init(&d);
        if (cry_dsa_keygen(&d, 0) != 0) return 2;
        full += cry_mpi_count_bits(&d.pvt) + 16 > cry_mpi_count_bits(&d.q);
        cry_dsa_clear(&d);
    }
    return full == 0;
}''',
    "the range of several generated keys",
    "generated DSA private keys never use the upper 16 bits of their range")
