#include "h.h"
#include <cry/ecp.h>
#include <cry/dsa.h>
#include <cry/elgamal.h>
#include <cry/ecdsa.h>
#include <cry/rsa.h>
#include <cry/dh.h>
#include <cry/ecdh.h>

#define NPT 3
#define NPARTY 2
static cry_ecp P[NPT];
static cry_ecp_grp grp;
static int grp_on;                      /* 1: own numbers, 2: loaded */
static cry_dsa_ctx dsa;
static cry_elgamal_ctx eg;
static cry_ecdsa_ctx ed;
static int ed_on;
static cry_rsa_ctx rsa;
static int rsa_on;
static cry_dh_ctx dh[NPARTY];
static cry_ecdh_ctx edh[NPARTY];
static int edh_on[NPARTY];
static cry_mpi sigr, sigs;

static void pt_drop(cry_ecp *p)
{
    mpi_drop(&p->x);
    mpi_drop(&p->y);
    mpi_drop(&p->z);
}

/* digits owned by the library's constant tables are not freed */
static void dropc(cry_mpi *m)
{
    if (m->alloc)
        mpi_drop(m);
    memset(m, 0, sizeof(*m));
}

static void grp_drop(cry_ecp_grp *g)
{
    dropc(&g->p);
    dropc(&g->a);
    dropc(&g->b);
    dropc(&g->n);
    dropc(&g->g.x);
    dropc(&g->g.y);
    dropc(&g->g.z);
}

static void fresh(cry_mpi *m)
{
    mpi_drop(m);
    m->data = malloc(sizeof(cry_mpi_digit));
    m->alloc = 1;
}

static void put_small(cry_mpi *m, unsigned v)
{
    fresh(m);
    if (v) {
        m->used = 1;
        m->data[0] = (cry_mpi_digit)v;
    }
}

static void dsa_drop(void)
{
    mpi_drop(&dsa.p);
    mpi_drop(&dsa.q);
    mpi_drop(&dsa.g);
    mpi_drop(&dsa.pvt);
    mpi_drop(&dsa.pub);
}

static void eg_drop(void)
{
    mpi_drop(&eg.p);
    mpi_drop(&eg.g);
    mpi_drop(&eg.y);
    mpi_drop(&eg.d);
}

static void ed_drop(void)
{
    if (ed_on) {
        mpi_drop(&ed.d);
        pt_drop(&ed.q);
        grp_drop(&ed.grp);
    }
    ed_on = 0;
}

static void rsa_drop(void)
{
    if (rsa_on) {
        mpi_drop(&rsa.n);
        mpi_drop(&rsa.e);
        mpi_drop(&rsa.d);
        mpi_drop(&rsa.p);
        mpi_drop(&rsa.q);
    }
    rsa_on = 0;
}

static void dh_drop(cry_dh_ctx *d)
{
    mpi_drop(&d->p);
    mpi_drop(&d->g);
    mpi_drop(&d->e);
    mpi_drop(&d->Y);
    mpi_drop(&d->Z);
}

static void edh_drop(int i)
{
    if (edh_on[i]) {
        grp_drop(&edh[i].ec);
        mpi_drop(&edh[i].d);
        pt_drop(&edh[i].q);
        pt_drop(&edh[i].z);
    }
    edh_on[i] = 0;
}

void pk_reset(void)
{
    int i;

    for (i = 0; i < NPT; i++) {
        pt_drop(&P[i]);
        fresh(&P[i].x);
        fresh(&P[i].y);
        fresh(&P[i].z);
    }
    if (grp_on)
        grp_drop(&grp);
    grp_on = 0;
    dsa_drop();
    eg_drop();
    ed_drop();
    rsa_drop();
    for (i = 0; i < NPARTY; i++) {
        dh_drop(&dh[i]);
        edh_drop(i);
    }
    fresh(&sigr);
    fresh(&sigs);
}

/* the value of a number that may live in the library's constant tables, with leading zero digits */
static void outv(const cry_mpi *m)
{
    cry_mpi t = *m;

    while (t.used && t.data[t.used - 1] == 0)
        t.used--;
    if (!t.used)
        t.sign = 0;
    t.alloc = t.used;
    outn(&t);
}

/* a number that need not own its digits, but has to be normalised */
static void outn2(const cry_mpi *m)
{
    cry_mpi t = *m;

    t.alloc = t.used;
    outn(&t);
}

static void outpt(const cry_ecp *p)
{
    cry_mpi z;

    memset(&z, 0, sizeof(z));
    if (cry_ecp_is_zero(p)) {
        outi(1);
        outn(&z);
        outn(&z);
    } else {
        outi(0);
        outn(&p->x);
        outn(&p->y);
    }
}

static void clrc(cry_ecp *p)
{
    if (p->x.data)
        cry_ecp_clear(p);
}

void pk_giveback(void)
{
    int i;

    for (i = 0; i < NPT; i++)
        clrc(&P[i]);
    if (grp_on)
        cry_ecp_grp_clear(&grp);
    grp_on = 0;
    memset(&grp, 0, sizeof(grp));
    cry_dsa_clear(&dsa);
    memset(&dsa, 0, sizeof(dsa));
    cry_elgamal_clear(&eg);
    memset(&eg, 0, sizeof(eg));
    if (ed_on)
        cry_ecdsa_clear(&ed);
    ed_on = 0;
    memset(&ed, 0, sizeof(ed));
    if (rsa_on)
        cry_rsa_clear(&rsa);
    rsa_on = 0;
    memset(&rsa, 0, sizeof(rsa));
    for (i = 0; i < NPARTY; i++) {
        cry_dh_clear(&dh[i]);
        if (edh_on[i])
            cry_ecdh_clear(&edh[i]);
        edh_on[i] = 0;
        memset(&edh[i], 0, sizeof(edh[i]));
    }
    memset(dh, 0, sizeof(dh));
    cry_mpi_clear(&sigr);
    cry_mpi_clear(&sigs);
}

/* setting up a context is not what an armed failure is about */
static int m_keep;
static void m_pause(void)
{
    m_keep = m_on;
    m_on = 0;
}
static void m_resume(void)
{
    m_on = m_keep;
}

/* whatever was in a context before must not matter to the call that sets it up */
#define GARBAGE(x) memset(&(x), 0xA5, sizeof(x))

/* initctx KIND: a context on raw memory -> rc, allocations left after a failure or after clearing it */
static void c_initctx(void)
{
    long before = m_live;
    int rc;
    union {
        cry_ecp p[4];
        cry_ecp_grp g;
        cry_dsa_ctx dsa;
        cry_elgamal_ctx eg;
        cry_ecdsa_ctx ed;
        cry_rsa_ctx rsa;
        cry_dh_ctx dh;
        cry_ecdh_ctx edh;
    } u;
    cry_ecp *nil = NULL;

    memset(&u, 0xA5, sizeof(u));
#define TRY(name, init, clear) \
    if (!strcmp(tok[1], name)) { \
        rc = init; \
        outi(rc); \
        if (rc == 0) \
            clear; \
    } else
    TRY("ecp", cry_ecp_init(&u.p[0]), cry_ecp_clear(&u.p[0]))
    TRY("ecpint", cry_ecp_init_int(&u.p[0], 1234567, -7654321), cry_ecp_clear(&u.p[0]))
    TRY("ecplist", cry_ecp_init_list(&u.p[0], &u.p[1], &u.p[2], &u.p[3], nil),
        cry_ecp_clear_list(&u.p[0], &u.p[1], &u.p[2], &u.p[3], nil))
    TRY("grp", cry_ecp_grp_init(&u.g), cry_ecp_grp_clear(&u.g))
    TRY("dsa", cry_dsa_init(&u.dsa), cry_dsa_clear(&u.dsa))
    TRY("elgamal", cry_elgamal_init(&u.eg), cry_elgamal_clear(&u.eg))
    TRY("ecdsa", cry_ecdsa_init(&u.ed, -1), cry_ecdsa_clear(&u.ed))
    TRY("ecdsa3", cry_ecdsa_init(&u.ed, 3), cry_ecdsa_clear(&u.ed))
    TRY("rsa", cry_rsa_init(&u.rsa, 1), cry_rsa_clear(&u.rsa))
    TRY("dh", cry_dh_init(&u.dh), cry_dh_clear(&u.dh))
    TRY("ecdh", cry_ecdh_init(&u.edh), cry_ecdh_clear(&u.edh))
    die("context kind");
    outi(m_live - before);
}

static cry_ecp *pt(int k)
{
    long i = argi(k);

    if (i < 1 || i > NPT)
        die("point");
    return &P[i - 1];
}

static void outgrp(const cry_ecp_grp *g)
{
    outn2(&g->p);
    outn2(&g->a);
    outn2(&g->b);
    outn2(&g->g.x);
    outn2(&g->g.y);
    outn2(&g->n);
}

static void ecstate(void)
{
    int i;

    outstate();
    for (i = 0; i < NPT; i++)
        outpt(&P[i]);
    if (!grp_on)
        return;
    outn2(&grp.p);
    outn2(&grp.a);
    outn2(&grp.b);
}

/* six numbers p a b gx gy n from token k */
static void grp_put(cry_ecp_grp *g, int k)
{
    mpi_put(&g->p, k, 0);
    mpi_put(&g->a, k + 1, 0);
    mpi_put(&g->b, k + 2, 0);
    mpi_put(&g->g.x, k + 3, 0);
    mpi_put(&g->g.y, k + 4, 0);
    put_small(&g->g.z, 1);
    mpi_put(&g->n, k + 5, 0);
}

static void pt_put(cry_ecp *p, int k)
{
    pt_drop(p);
    put_small(&p->z, argi(k) ? 0 : 1);
    mpi_put(&p->x, k + 1, 0);
    mpi_put(&p->y, k + 2, 0);
}

/* ecgrp p a b gx gy n */
static void c_ecgrp(void)
{
    if (grp_on)
        grp_drop(&grp);
    memset(&grp, 0, sizeof(grp));
    grp_put(&grp, 1);
    grp_on = 1;
    ecstate();
}

/* ecload id: result and the parameters */
static void c_ecload(void)
{
    int res;

    if (grp_on)
        grp_drop(&grp);
    grp_on = 0;
    memset(&grp, 0, sizeof(grp));
    res = cry_ecp_grp_load(&grp, (int)argi(1));
    outi(res);
    if (res == 0) {
        grp_on = 2;
        outgrp(&grp);
        outv(&grp.g.z);
    }
    ecstate();
}

/* ecset k inf x y */
static void c_ecset(void)
{
    pt_put(pt(1), 2);
    ecstate();
}

static void c_ecgen(void)
{
    outi(cry_ecp_copy(pt(1), &grp.g));
    ecstate();
}

static void c_ecadd(void)
{
    outi(cry_ecp_add(pt(1), pt(2), pt(3), &grp));
    ecstate();
}

static void c_ecdbl(void)
{
    outi(cry_ecp_dbl(pt(1), pt(2), &grp));
    ecstate();
}

/* ecmul r a k */
static void c_ecmul(void)
{
    cry_mpi k;

    mpi_put(&k, 3, 0);
    outi(cry_ecp_mul(pt(1), pt(2), &k, &grp));
    outn(&k);
    mpi_drop(&k);
    ecstate();
}

static void c_eccopy(void)
{
    outi(cry_ecp_copy(pt(1), pt(2)));
    ecstate();
}

static void c_ecinit(void)
{
    pt_drop(pt(1));
    if (ntok > 2)
        outi(cry_ecp_init_int(pt(1), argi(2), argi(3)));
    else
        outi(cry_ecp_init(pt(1)));
    ecstate();
}

static void c_eczero(void)
{
    cry_ecp_set_zero(pt(1));
    ecstate();
}

static void c_ecswap(void)
{
    cry_ecp *a = pt(1), *b = pt(2);

    cry_ecp_swap(a, b);
    ecstate();
}

/* ---- tables over tiny curves: points are byte triples inf x y --------------- */
static void tiny(cry_ecp *p, const unsigned char *b)
{
    put_small(&p->x, b[1]);
    put_small(&p->y, b[2]);
    put_small(&p->z, b[0] ? 0 : 1);
}

static unsigned tval(const cry_mpi *m)
{
    if (m->sign || m->used > 1 || (m->used && (m->data[0] == 0 || m->data[0] > 250)))
        return 254;
    return m->used ? (unsigned)m->data[0] : 0;
}

static void tout(const cry_ecp *p, int res, unsigned char *o)
{
    if (res) {
        o[0] = o[1] = o[2] = 255;
    } else if (cry_ecp_is_zero(p)) {
        o[0] = 1;
        o[1] = o[2] = 0;
    } else {
        o[0] = 0;
        o[1] = (unsigned char)tval(&p->x);
        o[2] = (unsigned char)tval(&p->y);
    }
}

/* ecaddtab mode p a b POINTS: all sums (mode 0: apart, 1: over the first, 2: over the second operand, 3: one operand
   object twice where equal) */
static void c_ecaddtab(void)
{
    long mode = argi(1);
    size_t n, i, j, k = 0;
    unsigned char *b = argb(5, &n), *o;
    cry_ecp_grp g;
    cry_ecp x, y, z;

    memset(&g, 0, sizeof(g));
    mpi_put(&g.p, 2, 0);
    mpi_put(&g.a, 3, 0);
    mpi_put(&g.b, 4, 0);
    memset(&x, 0, sizeof(x));
    memset(&y, 0, sizeof(y));
    memset(&z, 0, sizeof(z));
    n /= 3;
    o = scratch(3 * n * n, 0);
    for (i = 0; i < n; i++)
        for (j = 0; j < n; j++) {
            cry_ecp *px = &x, *py = &y, *pz = &z;
            int res;

            tiny(&x, b + 3 * i);
            tiny(&y, b + 3 * j);
            tiny(&z, b);
            if (mode == 1)
                pz = px;
            else if (mode == 2)
                pz = py;
            else if (mode == 3 && i == j)
                py = px;
            else if (mode == 4 && i == j)
                py = pz = px;
            res = cry_ecp_add(pz, px, py, &g);
            tout(pz, res, o + k);
            k += 3;
        }
    outb(o, k);
    pt_drop(&x);
    pt_drop(&y);
    pt_drop(&z);
    grp_drop(&g);
}

/* ecmultab mode p a b POINTS kmax: k * point for k = 0..kmax (mode 1: over the operand; 2: doubling only) */
static void c_ecmultab(void)
{
    long mode = argi(1), kmax = argi(6), k;
    size_t n, i, w = 0;
    unsigned char *b = argb(5, &n), *o;
    cry_ecp_grp g;
    cry_ecp x, z;
    cry_mpi m;

    memset(&g, 0, sizeof(g));
    mpi_put(&g.p, 2, 0);
    mpi_put(&g.a, 3, 0);
    mpi_put(&g.b, 4, 0);
    memset(&x, 0, sizeof(x));
    memset(&z, 0, sizeof(z));
    memset(&m, 0, sizeof(m));
    n /= 3;
    o = scratch(3 * n * (size_t)(kmax + 1), 0);
    for (i = 0; i < n; i++)
        for (k = 0; k <= kmax; k++) {
            int res;
            cry_ecp *pz = mode == 1 || mode == 3 ? &x : &z;

            tiny(&x, b + 3 * i);
            tiny(&z, b);
            put_small(&m, (unsigned)k);
            if (mode < 2)
                res = cry_ecp_mul(pz, &x, &m, &g);
            else
                res = cry_ecp_dbl(pz, &x, &g);
            tout(pz, res, o + w);
            w += 3;
        }
    outb(o, w);
    pt_drop(&x);
    pt_drop(&z);
    mpi_drop(&m);
    grp_drop(&g);
}

/* ---- DSA -------------------------------------------------------------------- */
static void dsa_out(void)
{
    outn(&dsa.p);
    outn(&dsa.q);
    outn(&dsa.g);
    outn(&dsa.pvt);
    outn(&dsa.pub);
}

static void dsastate(void)
{
    outstate();
    dsa_out();
}

/* dsakey p q g pvt pub */
static void c_dsakey(void)
{
    dsa_drop();
    mpi_put(&dsa.p, 1, 0);
    mpi_put(&dsa.q, 2, 0);
    mpi_put(&dsa.g, 3, 0);
    mpi_put(&dsa.pvt, 4, 0);
    mpi_put(&dsa.pub, 5, 0);
    dsastate();
}

static void c_dsasign(void)
{
    size_t n;
    unsigned char *m = argb(1, &n);
    cry_dsa_sig s;

    s.r = sigr;
    s.s = sigs;
    outi(cry_dsa_sign(&dsa, &s, m, n));
    sigr = s.r;
    sigs = s.s;
    outn(&s.r);
    outn(&s.s);
    dsastate();
}

/* dsaver r s msg */
static void c_dsaver(void)
{
    size_t n;
    unsigned char *m = argb(3, &n);
    cry_dsa_sig s;

    mpi_put(&s.r, 1, 0);
    mpi_put(&s.s, 2, 0);
    outi(cry_dsa_verify(&dsa, &s, m, n));
    outn(&s.r);
    outn(&s.s);
    mpi_drop(&s.r);
    mpi_drop(&s.s);
    dsastate();
}

static void c_dsakeygen(void)
{
    dsa_drop();
    m_pause();
    GARBAGE(dsa);
    if (cry_dsa_init(&dsa))
        die("dsa init");
    m_resume();
    outi(cry_dsa_keygen(&dsa, (unsigned)argi(1)));
    dsastate();
}

/* dsatab msg rmax smax: which (r, s) of 0..rmax x 0..smax are accepted */
static void c_dsatab(void)
{
    size_t n, w = 0;
    unsigned char *m = argb(1, &n), *o;
    long r, s, rm = argi(2), sm = argi(3);
    cry_dsa_sig g;

    memset(&g, 0, sizeof(g));
    o = scratch((size_t)((rm + 1) * (sm + 1)), 0);
    for (r = 0; r <= rm; r++)
        for (s = 0; s <= sm; s++) {
            put_small(&g.r, (unsigned)r);
            put_small(&g.s, (unsigned)s);
            o[w++] = cry_dsa_verify(&dsa, &g, m, n) == 0;
        }
    outb(o, w);
    mpi_drop(&g.r);
    mpi_drop(&g.s);
    dsastate();
}

/* ---- ElGamal ------------------------------------------------------------------ */
static void egstate(void)
{
    outstate();
    outn(&eg.p);
    outn(&eg.g);
    outn(&eg.y);
    outn(&eg.d);
}

/* egkey p g y d */
static void c_egkey(void)
{
    eg_drop();
    mpi_put(&eg.p, 1, 0);
    mpi_put(&eg.g, 2, 0);
    mpi_put(&eg.y, 3, 0);
    mpi_put(&eg.d, 4, 0);
    egstate();
}

static void c_egsign2(void)
{
    size_t n;
    unsigned char *m = argb(1, &n);
    cry_elgamal_sig s;

    s.r = sigr;
    s.s = sigs;
    outi(cry_elgamal_sign2(&eg, &s, m, n));
    sigr = s.r;
    sigs = s.s;
    outn(&s.r);
    outn(&s.s);
    egstate();
}

static void c_egver2(void)
{
    size_t n;
    unsigned char *m = argb(3, &n);
    cry_elgamal_sig s;

    mpi_put(&s.r, 1, 0);
    mpi_put(&s.s, 2, 0);
    outi(cry_elgamal_verify2(&eg, &s, m, n));
    outn(&s.r);
    outn(&s.s);
    mpi_drop(&s.r);
    mpi_drop(&s.s);
    egstate();
}

/* egsign msg size: signature as bytes, two fields of size bytes (the size of p) */
static void c_egsign(void)
{
    size_t n;
    unsigned char *m = argb(1, &n);
    unsigned char *o = scratch((size_t)(2 * argi(2)), 0xEE);

    outi(cry_elgamal_sign(&eg, o, m, n));
    outb(o, (size_t)(2 * argi(2)));
    egstate();
}

static void c_egver(void)
{
    size_t n;
    unsigned char *s = argb(1, NULL), *m = argb(2, &n);

    outi(cry_elgamal_verify(&eg, s, m, n));
    egstate();
}

static void c_egtab(void)
{
    size_t n, w = 0;
    unsigned char *m = argb(1, &n), *o;
    long r, s, rm = argi(2), sm = argi(3);
    cry_elgamal_sig g;

    memset(&g, 0, sizeof(g));
    o = scratch((size_t)((rm + 1) * (sm + 1)), 0);
    for (r = 0; r <= rm; r++)
        for (s = 0; s <= sm; s++) {
            put_small(&g.r, (unsigned)r);
            put_small(&g.s, (unsigned)s);
            o[w++] = cry_elgamal_verify2(&eg, &g, m, n) == 0;
        }
    outb(o, w);
    mpi_drop(&g.r);
    mpi_drop(&g.s);
    egstate();
}

/* ---- ECDSA -------------------------------------------------------------------- */
static void edstate(void)
{
    outstate();
    outgrp(&ed.grp);
    outn(&ed.d);
    outpt(&ed.q);
}

/* edcust p a b gx gy n */
static void c_edcust(void)
{
    ed_drop();
    GARBAGE(ed);
    m_pause();
    outi(cry_ecdsa_init(&ed, -1));
    m_resume();
    grp_drop(&ed.grp);
    grp_put(&ed.grp, 1);
    ed_on = 1;
    edstate();
}

static void c_edload(void)
{
    int res;

    ed_drop();
    GARBAGE(ed);
    m_pause();
    res = cry_ecdsa_init(&ed, (int)argi(1));
    m_resume();
    outi(res);
    if (res == 0) {
        ed_on = 1;
        edstate();
    }
}

/* edset d inf x y */
static void c_edset(void)
{
    mpi_drop(&ed.d);
    mpi_put(&ed.d, 1, 0);
    pt_put(&ed.q, 2);
    edstate();
}

static void c_edkeygen(void)
{
    outi(cry_ecdsa_keygen(&ed));
    edstate();
}

static void c_edsign(void)
{
    size_t n;
    unsigned char *m = argb(1, &n);
    cry_ecdsa_sig s;

    s.r = sigr;
    s.s = sigs;
    outi(cry_ecdsa_sign(&ed, &s, m, n));
    sigr = s.r;
    sigs = s.s;
    outn(&s.r);
    outn(&s.s);
    edstate();
}

static void c_edver(void)
{
    size_t n;
    unsigned char *m = argb(3, &n);
    cry_ecdsa_sig s;

    mpi_put(&s.r, 1, 0);
    mpi_put(&s.s, 2, 0);
    outi(cry_ecdsa_verify(&ed, &s, m, n));
    outn(&s.r);
    outn(&s.s);
    mpi_drop(&s.r);
    mpi_drop(&s.s);
    edstate();
}

static void c_edtab(void)
{
    size_t n, w = 0;
    unsigned char *m = argb(1, &n), *o;
    long r, s, rm = argi(2), sm = argi(3);
    cry_ecdsa_sig g;

    memset(&g, 0, sizeof(g));
    o = scratch((size_t)((rm + 1) * (sm + 1)), 0);
    for (r = 0; r <= rm; r++)
        for (s = 0; s <= sm; s++) {
            put_small(&g.r, (unsigned)r);
            put_small(&g.s, (unsigned)s);
            o[w++] = cry_ecdsa_verify(&ed, &g, m, n) == 0;
        }
    outb(o, w);
    mpi_drop(&g.r);
    mpi_drop(&g.s);
    edstate();
}

/* ---- RSA ---------------------------------------------------------------------- */
static void rsastate(void)
{
    outstate();
    outi(rsa.padding);
    outn(&rsa.n);
    outn(&rsa.e);
    outn(&rsa.d);
}

/* rsakey padding n e d */
static void c_rsakey(void)
{
    rsa_drop();
    m_pause();
    GARBAGE(rsa);
    outi(cry_rsa_init(&rsa, (int)argi(1)));
    m_resume();
    rsa_on = 1;
    mpi_drop(&rsa.n);
    mpi_drop(&rsa.e);
    mpi_drop(&rsa.d);
    mpi_put(&rsa.n, 2, 0);
    mpi_put(&rsa.e, 3, 0);
    mpi_put(&rsa.d, 4, 0);
    rsastate();
}

/* rsakeygen padding bits e */
static void c_rsakeygen(void)
{
    rsa_drop();
    m_pause();
    GARBAGE(rsa);
    if (cry_rsa_init(&rsa, (int)argi(1)))
        die("rsa init");
    m_resume();
    rsa_on = 1;
    outi(cry_rsa_keygen(&rsa, (size_t)argi(2), argi(3)));
    outn(&rsa.p);
    outn(&rsa.q);
    rsastate();
}

static void rsa_blk(int (*f)(cry_rsa_ctx *, unsigned char **, size_t *, const unsigned char *, size_t))
{
    size_t n, on = 4711;
    unsigned char *m = argb(1, &n), *o = (unsigned char *)&rsa;
    int res;

    res = f(&rsa, &o, &on, m, n);
    outi(res);
    outi(o != NULL);
    if (o != NULL && o != (unsigned char *)&rsa) {
        outb(o, on);
        free(o);
    } else {
        outb("", 0);
    }
    rsastate();
}

static void c_rsaenc(void) { rsa_blk(cry_rsa_encrypt); }
static void c_rsadec(void) { rsa_blk(cry_rsa_decrypt); }
static void c_rsasign(void) { rsa_blk(cry_rsa_sign); }

/* rsaver sig msg */
static void c_rsaver(void)
{
    size_t n, k;
    unsigned char *s = argb(1, &n), *m = argb(2, &k);

    outi(cry_rsa_verify(&rsa, s, n, m, k));
    rsastate();
}

/* ---- Diffie-Hellman -------------------------------------------------------------- */
static void dhstate(void)
{
    int i;

    outstate();
    for (i = 0; i < NPARTY; i++) {
        outn(&dh[i].p);
        outn(&dh[i].g);
        outn(&dh[i].e);
        outn(&dh[i].Y);
        outn(&dh[i].Z);
    }
}

static int party(void)
{
    long i = argi(1);

    if (i < 1 || i > NPARTY)
        die("party");
    return (int)i - 1;
}

/* dhinit i p g e */
static void c_dhinit(void)
{
    cry_dh_ctx *d = &dh[party()];

    dh_drop(d);
    m_pause();
    GARBAGE(*d);
    outi(cry_dh_init(d));
    m_resume();
    mpi_drop(&d->p);
    mpi_drop(&d->g);
    mpi_drop(&d->e);
    mpi_put(&d->p, 2, 0);
    mpi_put(&d->g, 3, 0);
    mpi_put(&d->e, 4, 0);
    dhstate();
}

static void c_dhagree(void) { outi(cry_dh_agree(&dh[party()])); dhstate(); }
static void c_dhfinal(void) { outi(cry_dh_finalize(&dh[party()])); dhstate(); }

static void c_dhgettok(void)
{
    unsigned char *o = scratch((size_t)argi(2), 0xEE);

    outi(cry_dh_get_tok(&dh[party()], o, (size_t)argi(2)));
    outb(o, (size_t)argi(2));
    dhstate();
}

static void c_dhgetsec(void)
{
    unsigned char *o = scratch((size_t)argi(2), 0xEE);

    outi(cry_dh_get_sec(&dh[party()], o, (size_t)argi(2)));
    outb(o, (size_t)argi(2));
    dhstate();
}

static void c_dhsettok(void)
{
    size_t n;
    unsigned char *b = argb(2, &n);

    outi(cry_dh_set_tok(&dh[party()], b, n));
    dhstate();
}

/* dhpass i j len: i's token travels to j through a buffer of len bytes */
static void c_dhpass(void)
{
    long j = argi(2), n = argi(3);
    unsigned char *o = scratch((size_t)n, 0xEE);

    if (j < 1 || j > NPARTY)
        die("party");
    outi(cry_dh_get_tok(&dh[party()], o, (size_t)n));
    outi(cry_dh_set_tok(&dh[j - 1], o, (size_t)n));
    dhstate();
}

static void c_dhclear(void) { cry_dh_clear(&dh[party()]); dhstate(); }

static void edhstate(void)
{
    int i;

    outstate();
    for (i = 0; i < NPARTY; i++) {
        outn(&edh[i].d);
        outpt(&edh[i].q);
        outpt(&edh[i].z);
    }
}

/* edhcust i p a b gx gy n d */
static void c_edhcust(void)
{
    int i = party();

    edh_drop(i);
    m_pause();
    GARBAGE(edh[i]);
    outi(cry_ecdh_init(&edh[i]));
    m_resume();
    edh_on[i] = 1;
    grp_drop(&edh[i].ec);
    grp_put(&edh[i].ec, 2);
    mpi_drop(&edh[i].d);
    mpi_put(&edh[i].d, 8, 0);
    edhstate();
}

/* edhload i id d */
static void c_edhload(void)
{
    int i = party();

    edh_drop(i);
    m_pause();
    GARBAGE(edh[i]);
    outi(cry_ecdh_init(&edh[i]));
    m_resume();
    edh_on[i] = 1;
    grp_drop(&edh[i].ec);
    outi(cry_ecp_grp_load(&edh[i].ec, (int)argi(2)));
    mpi_drop(&edh[i].d);
    mpi_put(&edh[i].d, 3, 0);
    edhstate();
}

static void c_edhagree(void) { outi(cry_ecdh_agree(&edh[party()])); edhstate(); }
static void c_edhfinal(void) { outi(cry_ecdh_final(&edh[party()])); edhstate(); }

/* edhpass i j: i's public point becomes the point j works on */
static void c_edhpass(void)
{
    long j = argi(2);

    if (j < 1 || j > NPARTY)
        die("party");
    outi(cry_ecp_copy(&edh[j - 1].q, &edh[party()].q));
    edhstate();
}

/* edhswap: the two parties exchange their points */
static void c_edhswap(void)
{
    cry_ecp_swap(&edh[0].q, &edh[1].q);
    edhstate();
}

/* pkclear kind [i]: the context is cleared -> secrets left in memory, secrets still reachable */
static cry_mpi *secrets[8];
static int nsecrets;
static void secret(cry_mpi *m)
{
    m_watch(m->data, m->used * sizeof(cry_mpi_digit));
    secrets[nsecrets++] = m;
}
static void c_pkclear(void)
{
    const char *k = tok[1];
    int i = ntok > 2 ? (int)argi(2) - 1 : 0, left = 0;

    nsecrets = 0;
    if (i < 0 || i >= NPARTY)
        die("no such party");
    if (!strcmp(k, "dsa")) {
        secret(&dsa.pvt);
        cry_dsa_clear(&dsa);
    } else if (!strcmp(k, "elgamal")) {
        secret(&eg.d);
        cry_elgamal_clear(&eg);
    } else if (!strcmp(k, "ecdsa")) {
        secret(&ed.d);
        cry_ecdsa_clear(&ed);
    } else if (!strcmp(k, "rsa")) {
        secret(&rsa.d);
        secret(&rsa.p);
        secret(&rsa.q);
        cry_rsa_clear(&rsa);
    } else if (!strcmp(k, "dh")) {
        secret(&dh[i].e);
        secret(&dh[i].Z);
        cry_dh_clear(&dh[i]);
    } else if (!strcmp(k, "ecdh")) {
        secret(&edh[i].d);
        secret(&edh[i].z.x);
        secret(&edh[i].z.y);
        cry_ecdh_clear(&edh[i]);
    } else {
        die("no such context");
    }
    outi(m_watched());
    while (nsecrets--)
        left += secrets[nsecrets]->used != 0 || secrets[nsecrets]->data != NULL;
    outi(left);
    if (!strcmp(k, "dsa"))
        memset(&dsa, 0, sizeof(dsa));
    else if (!strcmp(k, "elgamal"))
        memset(&eg, 0, sizeof(eg));
    else if (!strcmp(k, "ecdsa"))
        ed_on = 0, memset(&ed, 0, sizeof(ed));
    else if (!strcmp(k, "rsa"))
        rsa_on = 0, memset(&rsa, 0, sizeof(rsa));
    else if (!strcmp(k, "dh"))
        memset(&dh[i], 0, sizeof(dh[i]));
    else
        edh_on[i] = 0, memset(&edh[i], 0, sizeof(edh[i]));
}

const struct cmd pk_cmds[] = {
    { "initctx", c_initctx }, { "ecgrp", c_ecgrp }, { "ecload", c_ecload }, { "ecset", c_ecset }, { "ecgen", c_ecgen },
    { "ecadd", c_ecadd }, { "ecdbl", c_ecdbl }, { "ecmul", c_ecmul }, { "eccopy", c_eccopy },
    { "ecinit", c_ecinit }, { "eczero", c_eczero }, { "ecswap", c_ecswap },
    { "ecaddtab", c_ecaddtab }, { "ecmultab", c_ecmultab },
    { "dsakey", c_dsakey }, { "dsasign", c_dsasign }, { "dsaver", c_dsaver },
    { "dsakeygen", c_dsakeygen }, { "dsatab", c_dsatab },
    { "egkey", c_egkey }, { "egsign2", c_egsign2 }, { "egver2", c_egver2 }, { "egsign", c_egsign },
    { "egver", c_egver }, { "egtab", c_egtab },
    { "edcust", c_edcust }, { "edload", c_edload }, { "edset", c_edset }, { "edkeygen", c_edkeygen },
    { "edsign", c_edsign }, { "edver", c_edver }, { "edtab", c_edtab },
    { "rsakey", c_rsakey }, { "rsakeygen", c_rsakeygen }, { "rsaenc", c_rsaenc }, { "rsadec", c_rsadec },
    { "rsasign", c_rsasign }, { "rsaver", c_rsaver },
    { "dhinit", c_dhinit }, { "dhagree", c_dhagree }, { "dhfinal", c_dhfinal }, { "dhgettok", c_dhgettok },
    { "dhgetsec", c_dhgetsec }, { "dhsettok", c_dhsettok }, { "dhpass", c_dhpass }, { "dhclear", c_dhclear },
    { "edhcust", c_edhcust }, { "edhload", c_edhload }, { "edhagree", c_edhagree }, { "edhfinal", c_edhfinal },
    { "pkclear", c_pkclear }, { "edhpass", c_edhpass }, { "edhswap", c_edhswap },
    { NULL, NULL }
};
