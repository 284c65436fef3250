/* Symmetric algorithms, digests, generators: contexts live in slots. */
#include "h.h"
#include <cry/aes.h>
#include <cry/affine.h>
#include <cry/arc4.h>
#include <cry/base64.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ciph.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/ctr.h>
#include <cry/des.h>
#include <cry/gcm.h>
#include <cry/hash.h>
#include <cry/hill.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/memxor.h>
#include <cry/prng.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/trivium.h>
#include <cry/utils.h>

void *__real_malloc(size_t);
void __real_free(void *);

#define NSLOT 6
struct slot {
    void *m;            /* the context, exactly as large as its type */
    size_t n;
    void *c;            /* the context of what is plugged in */
    size_t cn;
    const char *kind;
    const void *itf;
    size_t bl;          /* block length of what is plugged in (CBC) */
};
static struct slot S[NSLOT];

/* a context block of n bytes; the contents are left over from the one before */
static void block(void **p, size_t *pn, size_t n)
{
    unsigned char *q = __real_malloc(n);
    size_t i;

    for (i = 0; i < n; i++)
        q[i] = *p && i < *pn ? ((unsigned char *)*p)[i] : (unsigned char)(0xA5 + i);
    __real_free(*p);
    *p = q;
    *pn = n;
}

void sym_reset(void)
{
    int i;

    for (i = 0; i < NSLOT; i++) {
        __real_free(S[i].m);
        __real_free(S[i].c);
    }
    memset(S, 0, sizeof(S));
    cry_prng_aes_init(NULL, 0);
}

static struct slot *slot(int k)
{
    long i = argi(k);

    if (i < 1 || i > NSLOT)
        die("slot");
    return &S[i - 1];
}

static void outzero(const void *p, size_t n, const void *q, size_t qn)
{
    const unsigned char *a = p, *b = q;
    size_t i, bad = 0;

    for (i = 0; i < n; i++)
        bad |= a[i];
    for (i = 0; i < qn; i++)
        bad |= b[i];
    outi(bad == 0);
}

/* ---- toys ---- */
struct toy { unsigned char key[64]; size_t n; };

static void toy_key(void *c, const unsigned char *k, size_t n)
{
    struct toy *t = c;

    if (n > sizeof(t->key) || n == 0)
        abort();
    memcpy(t->key, k, n);
    t->n = n;
}

static void toy_clear(void *c)
{
    memset(c, 0, sizeof(struct toy));
}

static void toy_enc(struct toy *t, unsigned char *d, const unsigned char *s, size_t size, size_t bl)
{
    unsigned char a[16];
    size_t i;

    if (size % bl)
        abort();
    for (; size; size -= bl, s += bl, d += bl) {
        for (i = 0; i < bl; i++)
            a[i] = (unsigned char)((s[i] ^ t->key[i % t->n]) + (i ? a[i - 1] : 0) + i + 1);
        for (i = 0; i < bl; i++)
            d[i] = (unsigned char)(5 * a[(i + 1) % bl] + 3);
    }
}

static void toy_dec(struct toy *t, unsigned char *d, const unsigned char *s, size_t size, size_t bl)
{
    unsigned char a[16];
    size_t i;

    if (size % bl)
        abort();
    for (; size; size -= bl, s += bl, d += bl) {
        for (i = 0; i < bl; i++)
            a[i] = (unsigned char)(205 * (s[(i + bl - 1) % bl] - 3));
        for (i = 0; i < bl; i++)
            d[i] = (unsigned char)((unsigned char)(a[i] - (i + 1) - (i ? a[i - 1] : 0)) ^ t->key[i % t->n]);
    }
}

static void toy8_enc(void *c, unsigned char *d, const unsigned char *s, size_t n) { toy_enc(c, d, s, n, 8); }
static void toy8_dec(void *c, unsigned char *d, const unsigned char *s, size_t n) { toy_dec(c, d, s, n, 8); }
static void toy16_enc(void *c, unsigned char *d, const unsigned char *s, size_t n) { toy_enc(c, d, s, n, 16); }
static void toy16_dec(void *c, unsigned char *d, const unsigned char *s, size_t n) { toy_dec(c, d, s, n, 16); }

struct toyhash { unsigned a, b; size_t n; };
static void th_init(void *c) { struct toyhash *t = c; t->a = 7; t->b = 11; t->n = 0; }
static void th_update(void *c, const unsigned char *p, size_t n)
{
    struct toyhash *t = c;

    for (; n; n--, p++, t->n++) {
        unsigned a = t->a;
        t->a = (a + *p + 1) % 251;
        t->b = (t->b + a + *p) % 241;
    }
}
static void th_digest(void *c, unsigned char *o)
{
    struct toyhash *t = c;

    o[0] = (unsigned char)t->a;
    o[1] = (unsigned char)t->b;
    o[2] = (unsigned char)t->n;
    o[3] = (unsigned char)(t->a ^ t->b);
    o[4] = (unsigned char)(t->n >> 8);
}
static void th_clear(void *c) { memset(c, 0, sizeof(struct toyhash)); }
/* one with neither init nor clear: it is ready again after a digest */
static void th_again(void *c, unsigned char *o) { th_digest(c, o); th_init(c); }

/* ---- what can be plugged in ---- */
struct cip { const char *name; size_t size; cry_ciph_itf itf; };
static const struct cip ciphers[] = {
    { "aes", sizeof(cry_aes_ctx), { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear,
      (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt } },
    { "des", sizeof(cry_des_ctx), { (cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear,
      (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt } },
    { "toy8", sizeof(struct toy), { NULL, toy_clear, toy_key, toy8_enc, toy8_dec } },
    { "toy16", sizeof(struct toy), { NULL, toy_clear, toy_key, toy16_enc, toy16_dec } },
};

static const struct cip *cipher(const char *n)
{
    size_t i;

    for (i = 0; i < sizeof(ciphers) / sizeof(ciphers[0]); i++)
        if (!strcmp(ciphers[i].name, n))
            return &ciphers[i];
    die("cipher");
    return NULL;
}

static void s512_init(void *c) { cry_sha512_init(c, 0); }
static void s384_init(void *c) { cry_sha512_init(c, 1); }
struct hsh {
    const char *name;
    size_t size, dl;
    cry_hash_itf itf;
    void (*one)(unsigned char *, const unsigned char *, size_t);
};
static const struct hsh hashes[] = {
    { "md5", sizeof(cry_md5_ctx), 16, { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear,
      (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest }, cry_md5 },
    { "sha1", sizeof(cry_sha1_ctx), 20, { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear,
      (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest }, cry_sha1 },
    { "sha256", sizeof(cry_sha256_ctx), 32, { (cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear,
      (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest }, cry_sha256 },
    { "sha384", sizeof(cry_sha512_ctx), 48, { s384_init, (cry_hash_clear_f)cry_sha512_clear,
      (cry_hash_update_f)cry_sha512_update, (cry_hash_digest_f)cry_sha512_digest }, cry_sha384 },
    { "sha512", sizeof(cry_sha512_ctx), 64, { s512_init, (cry_hash_clear_f)cry_sha512_clear,
      (cry_hash_update_f)cry_sha512_update, (cry_hash_digest_f)cry_sha512_digest }, cry_sha512 },
    { "toy", sizeof(struct toyhash), 5, { th_init, th_clear, th_update, th_digest }, NULL },
    { "toyn", sizeof(struct toyhash), 5, { NULL, NULL, th_update, th_again }, NULL },
};

static const struct hsh *hash(const char *n)
{
    size_t i;

    for (i = 0; i < sizeof(hashes) / sizeof(hashes[0]); i++)
        if (!strcmp(hashes[i].name, n))
            return &hashes[i];
    die("hash");
    return NULL;
}

/* an input buffer and a copy, to see whether it was modified */
static unsigned char *in, *in_copy;
static size_t in_len;

static void input(int k)
{
    in = argb(k, &in_len);
    in_copy = argb(k, NULL);
}

static void in_same(void)
{
    outi(memcmp(in, in_copy, in_len) == 0);
}

/* ---- digests ---- */
static void c_hinit(void)
{
    struct slot *s = slot(1);
    const struct hsh *h = hash(tok[2]);

    block(&s->m, &s->n, h->size);
    s->itf = h;
    h->itf.init(s->m);
}

static void c_hupd(void)
{
    struct slot *s = slot(1);

    input(2);
    ((const struct hsh *)s->itf)->itf.update(s->m, in, in_len);
    in_same();
}

static void c_hdig(void)
{
    struct slot *s = slot(1);
    const struct hsh *h = s->itf;
    unsigned char *o = scratch(h->dl, 0xEE);

    h->itf.digest(s->m, o);
    outb(o, h->dl);
}

static void c_hclear(void)
{
    struct slot *s = slot(1);

    ((const struct hsh *)s->itf)->itf.clear(s->m);
    outzero(s->m, s->n, NULL, 0);
}

/* hone ALG data */
static void c_hone(void)
{
    const struct hsh *h = hash(tok[1]);
    unsigned char *o = scratch(h->dl, 0xEE);

    input(2);
    h->one(o, in, in_len);
    outb(o, h->dl);
    in_same();
}

/* hbig ALG hi lo piece: hi * 2^20 + lo zero bytes in updates of at most piece * 2^20 + lo bytes */
static void c_hbig(void)
{
    const struct hsh *h = hash(tok[1]);
    size_t total = ((size_t)argi(2) << 20) + (size_t)argi(3), piece = ((size_t)argi(4) << 20) + (size_t)argi(3), n;
    unsigned char *z = calloc(1, piece), *o = scratch(h->dl, 0xEE);
    void *c = scratch(h->size, 0x5A);

    if (!z)
        die("memory");
    h->itf.init(c);
    for (; total; total -= n) {
        n = total < piece ? total : piece;
        h->itf.update(c, z, n);
    }
    h->itf.digest(c, o);
    free(z);
    outb(o, h->dl);
}

/* ---- CRC ---- */
static int is32(const char *v) { return !strcmp(v, "eth"); }

static void crc_setup(struct slot *s, const char *v)
{
    block(&s->m, &s->n, is32(v) ? sizeof(cry_crc32_ctx) : sizeof(cry_crc16_ctx));
    s->kind = is32(v) ? "crc32" : "crc16";
    if (!strcmp(v, "ccitt"))
        cry_crc16_ccitt_init(s->m);
    else if (!strcmp(v, "ibm"))
        cry_crc16_ibm_init(s->m);
    else if (!strcmp(v, "dnp"))
        cry_crc16_dnp_init(s->m);
    else
        cry_crc32_eth_init(s->m);
}

static void c_cinit(void)
{
    crc_setup(slot(1), tok[2]);
}

/* cinitx s variant start_hi start_lo flags: the variant's table with another start value and flags */
static void c_cinitx(void)
{
    struct slot *s = slot(1);

    crc_setup(s, tok[2]);
    if (is32(tok[2])) {
        const uint32_t *t = ((cry_crc32_ctx *)s->m)->tab;
        cry_crc32_init(s->m, (uint32_t)argi(3) << 16 | (uint32_t)argi(4), t, (unsigned char)argi(5));
    } else {
        const uint16_t *t = ((cry_crc16_ctx *)s->m)->tab;
        cry_crc16_init(s->m, (uint16_t)argi(4), t, (unsigned char)argi(5));
    }
}

static void c_cupd(void)
{
    struct slot *s = slot(1);

    input(2);
    if (!strcmp(s->kind, "crc32"))
        cry_crc32_update(s->m, in, in_len);
    else
        cry_crc16_update(s->m, in, in_len);
    in_same();
}

static void crc_out(unsigned long v, int w)
{
    unsigned char b[4];
    int i;

    for (i = 0; i < w; i++)
        b[i] = (unsigned char)(v >> (8 * (w - 1 - i)));
    outb(b, (size_t)w);
}

static void c_cfin(void)
{
    struct slot *s = slot(1);

    if (!strcmp(s->kind, "crc32"))
        crc_out(cry_crc32_final(s->m), 4);
    else
        crc_out(cry_crc16_final(s->m), 2);
}

static void c_cdig(void)
{
    struct slot *s = slot(1);
    int w = !strcmp(s->kind, "crc32") ? 4 : 2;
    unsigned char *o = scratch((size_t)w, 0xEE);

    if (w == 4)
        cry_crc32_digest(s->m, o);
    else
        cry_crc16_digest(s->m, o);
    outb(o, (size_t)w);
}

static void c_cone(void)
{
    input(2);
    if (!strcmp(tok[1], "ccitt"))
        crc_out(cry_crc16_ccitt(in, in_len), 2);
    else if (!strcmp(tok[1], "ibm"))
        crc_out(cry_crc16_ibm(in, in_len), 2);
    else if (!strcmp(tok[1], "dnp"))
        crc_out(cry_crc16_dnp(in, in_len), 2);
    else
        crc_out(cry_crc32_eth(in, in_len), 4);
    in_same();
}

/* ---- HMAC, CMAC ---- */
static void c_hminit(void)
{
    struct slot *s = slot(1);
    const struct hsh *h = hash(tok[2]);

    input(3);
    block(&s->m, &s->n, sizeof(cry_hmac_ctx));
    block(&s->c, &s->cn, h->size);
    s->itf = h;
    if (!h->itf.init)
        th_init(s->c);
    cry_hmac_init(s->m, s->c, &h->itf, h->dl, in, in_len);
    in_same();
}

static void c_hmupd(void)
{
    input(2);
    cry_hmac_update(slot(1)->m, in, in_len);
    in_same();
}

static void c_hmdig(void)
{
    struct slot *s = slot(1);
    size_t n = ((const struct hsh *)s->itf)->dl;
    unsigned char *o = scratch(n, 0xEE);

    cry_hmac_digest(s->m, o);
    outb(o, n);
}

static void c_cminit(void)
{
    struct slot *s = slot(1);
    const struct cip *c = cipher(tok[2]);

    input(3);
    block(&s->m, &s->n, sizeof(cry_cmac_ctx));
    block(&s->c, &s->cn, c->size);
    cry_cmac_init(s->m, s->c, &c->itf, in, in_len);
    in_same();
}

static void c_cmupd(void)
{
    input(2);
    cry_cmac_update(slot(1)->m, in, in_len);
    in_same();
}

static void c_cmdig(void)
{
    unsigned char *o = scratch(16, 0xEE);

    cry_cmac_digest(slot(1)->m, o);
    outb(o, 16);
}

/* ---- block and stream ciphers ---- */
typedef void (*crypt_f)(void *, unsigned char *, const unsigned char *, size_t);

/* data of token k through f, in place if token k+1 is 1 */
static void crypt(crypt_f f, void *ctx, int k)
{
    int inplace = ntok > k + 1 && argi(k + 1);
    unsigned char *o;

    input(k);
    o = inplace ? in : scratch(in_len, 0xEE);
    f(ctx, o, in, in_len);
    outb(o, in_len);
    if (inplace)
        outi(1);
    else
        in_same();
}

/* the same where bytes after the last whole block have to be left alone */
static void crypt_whole(crypt_f f, void *ctx, int k, size_t bl)
{
    int inplace = ntok > k + 1 && argi(k + 1), same = 1;
    unsigned char *o, *t;
    size_t n, i;

    input(k);
    n = in_len - in_len % bl;
    o = inplace ? in : scratch(in_len, 0xEE);
    t = o + n;
    {
        unsigned char tail[64];

        memcpy(tail, t, in_len - n);
        f(ctx, o, in, in_len);
        for (i = 0; i < in_len - n; i++)
            same &= t[i] == tail[i];
    }
    outb(o, n);
    if (inplace)
        outi(same);
    else if (same)
        in_same();
    else
        outi(0);
}

/* bkey s cipher key [init] */
static void c_bkey(void)
{
    struct slot *s = slot(1);
    const struct cip *c = cipher(tok[2]);

    input(3);
    if (s->itf != c || !s->m || s->n != c->size)
        block(&s->m, &s->n, c->size);
    s->itf = c;
    if (ntok > 4 && argi(4) && c->itf.init)
        c->itf.init(s->m);
    c->itf.key_set(s->m, in, in_len);
    in_same();
}

static void c_benc(void) { struct slot *s = slot(1); crypt(((const struct cip *)s->itf)->itf.encrypt, s->m, 2); }
static void c_bdec(void) { struct slot *s = slot(1); crypt(((const struct cip *)s->itf)->itf.decrypt, s->m, 2); }
static void c_bclear(void)
{
    struct slot *s = slot(1);

    ((const struct cip *)s->itf)->itf.clear(s->m);
    outzero(s->m, s->n, NULL, 0);
}

static void c_minit(void)
{
    struct slot *s = slot(1);
    const struct cip *c = cipher(tok[3]);

    block(&s->c, &s->cn, c->size);
    if (!strcmp(tok[2], "cbc")) {
        s->kind = "cbc";
        block(&s->m, &s->n, sizeof(cry_cbc_ctx));
        cry_cbc_init(s->m, s->c, &c->itf);
        s->bl = strstr("des toy8", tok[3]) ? 8 : 16;
    } else if (!strcmp(tok[2], "ctr")) {
        s->kind = "ctr";
        block(&s->m, &s->n, sizeof(cry_ctr_ctx));
        cry_ctr_init(s->m, s->c, &c->itf);
    } else {
        s->kind = !strcmp(tok[2], "cfb") ? "cfb" : "cfb8";
        block(&s->m, &s->n, sizeof(cry_cfb_ctx));
        cry_cfb_init(s->m, s->c, &c->itf);
    }
}

static void c_mkey(void)
{
    struct slot *s = slot(1);

    input(2);
    if (!strcmp(s->kind, "cbc"))
        cry_cbc_key_set(s->m, in, in_len);
    else if (!strcmp(s->kind, "ctr"))
        cry_ctr_key_set(s->m, in, in_len);
    else
        cry_cfb_key_set(s->m, in, in_len);
    in_same();
}

static void c_miv(void)
{
    struct slot *s = slot(1);

    input(2);
    if (!strcmp(s->kind, "cbc"))
        cry_cbc_iv_set(s->m, in, in_len);
    else if (!strcmp(s->kind, "ctr"))
        cry_ctr_iv_set(s->m, in, in_len);
    else
        cry_cfb_iv_set(s->m, in, in_len);
    in_same();
}

static void w_cbce(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cbc_encrypt(c, d, p, n); }
static void w_cbcd(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cbc_decrypt(c, d, p, n); }
static void w_ctre(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_ctr_encrypt(c, d, p, n); }
static void w_ctrd(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_ctr_decrypt(c, d, p, n); }
static void w_cfbe(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cfb_encrypt(c, d, p, n); }
static void w_cfbd(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cfb_decrypt(c, d, p, n); }
static void w_cf8e(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cfb8_encrypt(c, d, p, n); }
static void w_cf8d(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_cfb8_decrypt(c, d, p, n); }
static void w_gcme(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_gcm_encrypt(c, d, p, n); }
static void w_gcmd(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_gcm_decrypt(c, d, p, n); }

/* menc s data inplace [fail_at]: the n-th allocation of the call fails */
static void mrun(int dec)
{
    struct slot *s = slot(1);
    crypt_f f;

    if (!strcmp(s->kind, "cbc"))
        f = dec ? w_cbcd : w_cbce;
    else if (!strcmp(s->kind, "ctr"))
        f = dec ? w_ctrd : w_ctre;
    else if (!strcmp(s->kind, "cfb"))
        f = dec ? w_cfbd : w_cfbe;
    else
        f = dec ? w_cf8d : w_cf8e;
    if (ntok > 4)
        m_begin(argi(4));
    if (!strcmp(s->kind, "cbc"))
        crypt_whole(f, s->m, 2, s->bl);
    else
        crypt(f, s->m, 2);
    m_end();
}
static void c_menc(void) { mrun(0); }
static void c_mdec(void) { mrun(1); }
static void c_mclear(void)
{
    struct slot *s = slot(1);

    if (!strcmp(s->kind, "cbc"))
        cry_cbc_clear(s->m);
    else if (!strcmp(s->kind, "ctr"))
        cry_ctr_clear(s->m);
    else
        cry_cfb_clear(s->m);
    outzero(s->m, s->n, s->c, s->cn);
}

static void c_ginit(void)
{
    struct slot *s = slot(1);
    const struct cip *c = cipher(tok[2]);

    block(&s->c, &s->cn, c->size);
    block(&s->m, &s->n, sizeof(cry_gcm_ctx));
    cry_gcm_init(s->m, s->c, &c->itf);
}
static void c_gkey(void) { input(2); cry_gcm_key_set(slot(1)->m, in, in_len); in_same(); }
static void c_giv(void) { input(2); cry_gcm_iv_set(slot(1)->m, in, in_len); in_same(); }
static void c_gaad(void) { input(2); cry_gcm_update(slot(1)->m, in, in_len); in_same(); }
static void c_genc(void) { crypt(w_gcme, slot(1)->m, 2); }
static void c_gdec(void) { crypt(w_gcmd, slot(1)->m, 2); }
static void c_gtag(void)
{
    size_t n = (size_t)argi(2);
    unsigned char *o = scratch(n, 0xEE);

    cry_gcm_digest(slot(1)->m, o, n);
    outb(o, n);
}
static void c_gclear(void)
{
    struct slot *s = slot(1);

    cry_gcm_clear(s->m);
    outzero(s->m, s->n, s->c, s->cn);
}
/* gbig s mib: mib * 2^20 zero bytes of additional data */
static void c_gbig(void)
{
    struct slot *s = slot(1);
    long i, n = argi(2);
    unsigned char *z = calloc(1, 1 << 20);

    for (i = 0; i < n; i++)
        cry_gcm_update(s->m, z, 1 << 20);
    free(z);
}

/* gdbig s mib: decrypts mib * 2^20 zero bytes; reports the first block of the last 2^20 */
static void c_gdbig(void)
{
    struct slot *s = slot(1);
    long i, n = argi(2);
    unsigned char *z = calloc(1, 1 << 20), *o = malloc(1 << 20);

    for (i = 0; i < n; i++)
        cry_gcm_decrypt(s->m, o, z, 1 << 20);
    outb(o, 16);
    free(z);
    free(o);
}

static void w_arc4(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_arc4_crypt(c, d, p, n); }
static void w_triv(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_trivium_crypt(c, d, p, n); }
/* skey s alg key [init] */
static void c_skey(void)
{
    struct slot *s = slot(1);
    int a = !strcmp(tok[2], "arc4");
    size_t n = a ? sizeof(cry_arc4_ctx) : sizeof(cry_trivium_ctx);

    input(3);
    if (!s->m || s->n != n)
        block(&s->m, &s->n, n);
    s->kind = a ? "arc4" : "trivium";
    if (ntok > 4 && argi(4)) {
        if (a)
            cry_arc4_init(s->m);
        else
            cry_trivium_init(s->m);
    }
    if (a)
        cry_arc4_key_set(s->m, in, in_len);
    else
        cry_trivium_key_set(s->m, in, in_len);
    in_same();
}
static void c_siv(void) { input(2); cry_trivium_iv_set(slot(1)->m, in, in_len); in_same(); }
static void c_scrypt(void)
{
    struct slot *s = slot(1);

    crypt(!strcmp(s->kind, "arc4") ? w_arc4 : w_triv, s->m, 2);
}
static void c_sclear(void)
{
    struct slot *s = slot(1);

    if (!strcmp(s->kind, "arc4"))
        cry_arc4_clear(s->m);
    else
        cry_trivium_clear(s->m);
    outzero(s->m, s->n, NULL, 0);
}

/* ---- generators ---- */
static void c_pinit(void) { input(1); outi(cry_prng_aes_init(in_len ? in : NULL, in_len)); in_same(); }
static void c_linit(void) { input(1); outi(cry_prng_lfsr113_init(in_len ? in : NULL, in_len)); in_same(); }
static void c_prand(void)
{
    size_t n = (size_t)argi(1);
    unsigned char *o = scratch(n, 0xEE);

    outi(cry_prng_aes_rand(o, n));
    outb(o, n);
}
static void c_lrand(void)
{
    size_t n = (size_t)argi(1);
    unsigned char *o = scratch(n, 0xEE);

    outi(cry_prng_lfsr113_rand(o, n));
    outb(o, n);
}

/* ---- key wrap ---- */
static void c_wrap(void)
{
    size_t kl;
    unsigned char *k = argb(1, &kl), *o;

    input(2);
    o = scratch(in_len + 8, 0xEE);
    outi(cry_aes_wrap(o, in, in_len, k, kl));
    outb(o, in_len + 8);
    in_same();
}

static void c_unwrap(void)
{
    size_t kl, n;
    unsigned char *k = argb(1, &kl), *o;

    input(2);
    n = in_len < 8 ? 0 : in_len - 8;
    o = scratch(n, 0xEE);
    outi(cry_aes_unwrap(o, in, n, k, kl));
    outb(o, n);
    in_same();
}

/* ---- memxor: memory dst src... n; offsets into the memory ---- */
static void c_memxor(void)
{
    input(1);
    cry_memxor(in + argi(2), in + argi(3), (size_t)argi(4));
    outb(in, in_len);
}

/* memxor2 memory dst src1 src2 n [fail_at] */
static void c_memxor2(void)
{
    input(1);
    if (ntok > 6)
        m_begin(argi(6));
    cry_memxor2(in + argi(2), in + argi(3), in + argi(4), (size_t)argi(5));
    m_end();
    outb(in, in_len);
}

/* memxor with the source (or sources) in another block: memory dst source n */
static void c_memxord(void)
{
    unsigned char *s = argb(3, NULL);

    input(1);
    cry_memxor(in + argi(2), s, (size_t)argi(4));
    outb(in, in_len);
}

/* ---- base64: the result and the bytes written ---- */
static void c_b64e(void)
{
    size_t n, cap;
    unsigned char *o;

    input(1);
    cap = (in_len + 2) / 3 * 4;
    o = scratch(cap, 0xEE);
    n = cry_base64_encode((char *)o, (const char *)in, in_len);
    outi((long)n);
    outb(o, cap);
    in_same();
}

/* b64d text cap */
static void c_b64d(void)
{
    size_t n, cap;
    unsigned char *o;

    input(1);
    cap = (size_t)argi(2);
    o = scratch(cap, 0xEE);
    n = cry_base64_decode((char *)o, (const char *)in, in_len);
    outi((long)n);
    outb(o, n == (size_t)-1 ? 0 : n <= cap ? n : 0);
    in_same();
}

/* ---- affine, Hill ---- */
/* afinit s keya keyb */
static void c_afinit(void)
{
    struct slot *s = slot(1);
    unsigned char *b = argb(3, NULL);

    input(2);
    block(&s->m, &s->n, sizeof(cry_affine_ctx));
    outi(cry_affine_init(s->m, in, b, in_len));
}
static void w_afe(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_affine_encrypt(c, d, p, n); }
static void w_afd(void *c, unsigned char *d, const unsigned char *p, size_t n) { cry_affine_decrypt(c, d, p, n); }
static void c_afenc(void) { crypt(w_afe, slot(1)->m, 2); }
static void c_afdec(void) { crypt(w_afd, slot(1)->m, 2); }

/* hlinit s keylen key ikey: an empty key or inverse means NULL; results: code, key, inverse */
static void c_hlinit(void)
{
    struct slot *s = slot(1);
    size_t n = (size_t)argi(2), kl, il;
    unsigned char *k = argb(3, &kl), *ik = argb(4, &il);
    cry_hill_ctx *c;

    block(&s->m, &s->n, sizeof(cry_hill_ctx));
    c = s->m;
    outi(cry_hill_init(c, kl || !n ? k : NULL, il ? ik : NULL, n));
    outb(c->key, c->n * c->n);
    outb(c->ikey, c->n * c->n);
}

/* hlenc s data n inplace: output extends to a multiple of n */
static void hlrun(int dec)
{
    struct slot *s = slot(1);
    size_t n = (size_t)argi(3), ol;
    unsigned char *o;

    input(2);
    ol = (in_len + n - 1) / n * n;
    o = scratch(ol, 0xEE);
    if (argi(4) && ol == in_len) {
        memcpy(o, in, in_len);
        if (dec)
            cry_hill_decrypt(s->m, o, o, in_len);
        else
            cry_hill_encrypt(s->m, o, o, in_len);
    } else if (dec) {
        cry_hill_decrypt(s->m, o, in, in_len);
    } else {
        cry_hill_encrypt(s->m, o, in, in_len);
    }
    outb(o, ol);
    in_same();
}
static void c_hlenc(void) { hlrun(0); }
static void c_hldec(void) { hlrun(1); }

const struct cmd sym_cmds[] = {
    { "hinit", c_hinit }, { "hupd", c_hupd }, { "hdig", c_hdig }, { "hclear", c_hclear }, { "hone", c_hone },
    { "hbig", c_hbig },
    { "cinit", c_cinit }, { "cinitx", c_cinitx }, { "cupd", c_cupd }, { "cfin", c_cfin }, { "cdig", c_cdig },
    { "cone", c_cone },
    { "hminit", c_hminit }, { "hmupd", c_hmupd }, { "hmdig", c_hmdig },
    { "cminit", c_cminit }, { "cmupd", c_cmupd }, { "cmdig", c_cmdig },
    { "bkey", c_bkey }, { "benc", c_benc }, { "bdec", c_bdec }, { "bclear", c_bclear },
    { "minit", c_minit }, { "mkey", c_mkey }, { "miv", c_miv }, { "menc", c_menc }, { "mdec", c_mdec },
    { "mclear", c_mclear },
    { "ginit", c_ginit }, { "gkey", c_gkey }, { "giv", c_giv }, { "gaad", c_gaad }, { "genc", c_genc },
    { "gdec", c_gdec }, { "gtag", c_gtag }, { "gclear", c_gclear }, { "gbig", c_gbig }, { "gdbig", c_gdbig },
    { "skey", c_skey }, { "siv", c_siv }, { "scrypt", c_scrypt }, { "sclear", c_sclear },
    { "pinit", c_pinit }, { "prand", c_prand }, { "linit", c_linit }, { "lrand", c_lrand },
    { "wrap", c_wrap }, { "unwrap", c_unwrap },
    { "memxor", c_memxor }, { "memxor2", c_memxor2 }, { "memxord", c_memxord },
    { "b64e", c_b64e }, { "b64d", c_b64d },
    { "afinit", c_afinit }, { "afenc", c_afenc }, { "afdec", c_afdec },
    { "hlinit", c_hlinit }, { "hlenc", c_hlenc }, { "hldec", c_hldec },
    { NULL, NULL }
};
