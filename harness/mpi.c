#include "h.h"
#include <unistd.h>

#define NREG 4
static cry_mpi R[NREG];

void mpi_reset(void)
{
    int i;

    for (i = 0; i < NREG; i++) {
        mpi_drop(&R[i]);
        R[i].data = malloc(sizeof(cry_mpi_digit));
        R[i].alloc = 1;
    }
}

void mpi_giveback(void)
{
    int i;

    for (i = 0; i < NREG; i++)
        cry_mpi_clear(&R[i]);
}

static cry_mpi *reg(int k)
{
    long i = argi(k);

    if (i == 0)
        return NULL;
    if (i < 1 || i > NREG)
        die("register");
    return &R[i - 1];
}

static void state(void)
{
    int i;

    outstate();
    for (i = 0; i < NREG; i++)
        outn(&R[i]);
}

static void c_mset(void)
{
    cry_mpi *r = reg(1);

    mpi_drop(r);
    mpi_put(r, 2, ntok > 3 ? (size_t)argi(3) : 0);
    state();
}

typedef int (*bin_f)(cry_mpi *, const cry_mpi *, const cry_mpi *);
typedef int (*un_f)(cry_mpi *, const cry_mpi *);

static const struct { const char *n; bin_f f; } bins[] = {
    { "add", cry_mpi_add }, { "sub", cry_mpi_sub }, { "mul", cry_mpi_mul },
    { "add_abs", cry_mpi_add_abs }, { "sub_abs", cry_mpi_sub_abs }, { "mul_abs", cry_mpi_mul_abs },
    { "mul_baseline", cry_mpi_mul_baseline }, { "mul_comba", cry_mpi_mul_comba },
    { "mul_karatsuba", cry_mpi_mul_karatsuba }, { "mul_toom3", cry_mpi_mul_toom3 },
    { "exp", cry_mpi_exp }, { "gcd", cry_mpi_gcd }, { "lcm", cry_mpi_lcm }, { "inv", cry_mpi_inv },
};
static const struct { const char *n; un_f f; } uns[] = {
    { "abs", cry_mpi_abs }, { "copy", cry_mpi_copy }, { "sqr", cry_mpi_sqr },
    { "sqr_baseline", cry_mpi_sqr_baseline }, { "sqr_comba", cry_mpi_sqr_comba },
    { "sqr_karatsuba", cry_mpi_sqr_karatsuba }, { "sqrt", cry_mpi_sqrt },
};

/* bin OP r a b [fail_at] */
static void c_bin(void)
{
    size_t i;

    for (i = 0; i < sizeof(bins) / sizeof(bins[0]); i++)
        if (!strcmp(bins[i].n, tok[1])) {
            outi(bins[i].f(reg(2), reg(3), reg(4)));
            state();
            return;
        }
    die("bin op");
}

static void c_un(void)
{
    size_t i;

    for (i = 0; i < sizeof(uns) / sizeof(uns[0]); i++)
        if (!strcmp(uns[i].n, tok[1])) {
            outi(uns[i].f(reg(2), reg(3)));
            state();
            return;
        }
    die("un op");
}

static void c_muldig(void)
{
    outi(cry_mpi_mul_dig(reg(1), reg(2), (cry_mpi_digit)argi(3)));
    state();
}

static void c_div(void)
{
    outi(cry_mpi_div(reg(1), reg(2), reg(3), reg(4)));
    state();
}

static void c_mod(void)
{
    outi(cry_mpi_mod(reg(1), reg(2), reg(3)));
    state();
}

static void c_divabs(void)
{
    outi(cry_mpi_div_abs(reg(1), reg(2), reg(3), reg(4)));
    state();
}

static void c_modexp(void)
{
    outi(cry_mpi_mod_exp(reg(1), reg(2), reg(3), reg(4)));
    state();
}

static void c_shl(void)
{
    outi(cry_mpi_shl(reg(1), reg(2), (size_t)argi(3)));
    state();
}

static void c_shr(void)
{
    outi(cry_mpi_shr(reg(1), reg(2), (size_t)argi(3)));
    state();
}

static void c_cmp(void)
{
    outi(cry_mpi_cmp(reg(1), reg(2)));
    state();
}

static void c_cmpabs(void)
{
    outi(cry_mpi_cmp_abs(reg(1), reg(2)));
    state();
}

/* info a -> bits bytes zero odd even pos neg */
static void c_info(void)
{
    cry_mpi *a = reg(1);

    outi((long)cry_mpi_count_bits(a));
    outi((long)cry_mpi_count_bytes(a));
    outi(cry_mpi_is_zero(a) ? 1 : 0);
    outi(cry_mpi_is_odd(a) ? 1 : 0);
    outi(cry_mpi_is_even(a) ? 1 : 0);
    outi(cry_mpi_is_pos(a) ? 1 : 0);
    outi(cry_mpi_is_neg(a) ? 1 : 0);
    state();
}

static void c_swap(void)
{
    cry_mpi_swap(reg(1), reg(2));
    state();
}

static void c_zero(void)
{
    cry_mpi_zero(reg(1));
    state();
}

/* long values travel as n tokens */
static long longtok(int k)
{
    const char *s = tok[k] + 1;
    int neg = *s == '-';
    unsigned long u = strtoul(neg ? s + 1 : s, NULL, 16);

    return neg ? (long)(0UL - u) : (long)u;
}

static void outlong(long v)
{
    unsigned long u = v < 0 ? 0UL - (unsigned long)v : (unsigned long)v;
    char b[40];
    int n;

    if (!u) {
        printf(" n");
        return;
    }
    n = snprintf(b, sizeof(b), "%lx", u);
    printf(" n%s%s%s", v < 0 ? "-" : "", (n & 1) ? "0" : "", b);
}

static void c_setint(void)
{
    outi(cry_mpi_set_int(reg(1), longtok(2)));
    state();
}

static void c_getint(void)
{
    long v = 0x5a5a5a;
    int rc = cry_mpi_get_int(reg(1), &v);

    outi(rc);
    if (rc)
        v = 0;
    outlong(v);
    state();
}

static void c_loadbin(void)
{
    size_t n;
    unsigned char *b = argb(2, &n);

    outi(cry_mpi_load_bin(reg(1), b, n));
    state();
}

/* storebin r size pad -> rc buffer */
static void c_storebin(void)
{
    size_t n = (size_t)argi(2);
    unsigned char *b = scratch(n, 0xEE);
    int rc = cry_mpi_store_bin(reg(1), b, n, (int)argi(3));

    outi(rc);
    outb(b, n);
    state();
}

static char *cstr(int k)
{
    size_t n;
    unsigned char *b = argb(k, &n);
    unsigned char *s = scratch(n + 1, 0);

    memcpy(s, b, n);
    return (char *)s;
}

static void c_loadstr(void)
{
    outi(cry_mpi_load_str(reg(1), (unsigned)argi(2), cstr(3)));
    state();
}

/* storestr r radix bufsize -> rc string */
static void c_storestr(void)
{
    size_t n = (size_t)argi(3);
    unsigned char *b = scratch(n, 0);
    int rc = cry_mpi_store_str(reg(1), (unsigned)argi(2), (char *)b);

    outi(rc);
    if (rc == 0)
        outb(b, strnlen((char *)b, n));
    else
        outb(b, 0);
    state();
}

/* init KIND r ... : the register is uninitialised memory before */
static void c_init(void)
{
    cry_mpi *r = reg(2);
    cry_mpi old = *r;
    size_t n;
    unsigned char *b;
    int rc = -1;

    memset(r, 0xA5, sizeof(*r));
    if (!strcmp(tok[1], "plain"))
        rc = cry_mpi_init(r);
    else if (!strcmp(tok[1], "copy"))
        rc = cry_mpi_init_copy(r, reg(3));
    else if (!strcmp(tok[1], "int"))
        rc = cry_mpi_init_int(r, longtok(3));
    else if (!strcmp(tok[1], "size"))
        rc = cry_mpi_init_size(r, (size_t)argi(3));
    else if (!strcmp(tok[1], "bin")) {
        b = argb(3, &n);
        rc = cry_mpi_init_bin(r, b, n);
    } else if (!strcmp(tok[1], "str"))
        rc = cry_mpi_init_str(r, (unsigned)argi(3), cstr(4));
    else
        die("init kind");
    outi(rc);
    if (rc != 0) {   /* what is left must be unusable only, not leaked */
        memset(r, 0, sizeof(*r));
        r->data = malloc(sizeof(cry_mpi_digit));
        r->alloc = 1;
    }
    state();
    free(old.data);
}

static void c_clear(void)
{
    cry_mpi *r = reg(1);

    cry_mpi_clear(r);
    state();
}

/* ---- random numbers and primes: injected generator output first, then the real one ---- */
static void c_rnd(void)
{
    size_t n;
    unsigned char *b = argb(1, &n);

    rnd_set(b, n);
}

static void c_rand(void)
{
    outi(cry_mpi_rand(reg(1), (size_t)argi(2)));
    state();
}

static void c_randrange(void)
{
    outi(cry_mpi_rand_range(reg(1), reg(2)));
    state();
}

static void c_isprime(void)
{
    outi(cry_mpi_is_prime(reg(1)));
    state();
}

/* isprimes n n n ... -> verdicts */
static void c_isprimes(void)
{
    int k;
    cry_mpi m;

    for (k = 1; k < ntok; k++) {
        mpi_put(&m, k, 0);
        outi(cry_mpi_is_prime(&m));
        mpi_drop(&m);
    }
    state();
}

/* prime r bits iter (0: default) -> rc iterations */
static void c_prime(void)
{
    unsigned int it = (unsigned int)argi(3);

    outi(cry_mpi_prime(reg(1), (size_t)argi(2), it ? &it : NULL));
    outi((long)it);
    state();
}

/* print r radix -> the text written to standard output */
static void c_print(void)
{
    char path[] = "/tmp/cryvXXXXXX";
    int fd = mkstemp(path), keep;
    static unsigned char buf[65536];
    ssize_t n;

    if (fd < 0)
        die("mkstemp");
    unlink(path);
    fflush(stdout);
    keep = dup(1);
    dup2(fd, 1);
    cry_mpi_print(reg(1), (unsigned)argi(2));
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    n = pread(fd, buf, sizeof(buf), 0);
    close(fd);
    outb(buf, n < 0 ? 0 : (size_t)n);
    state();
}

/* initlist n: n numbers at once on raw memory -> rc, allocations left after a failure or after clearing them */
static void c_initlist(void)
{
    cry_mpi a[5];
    long n = argi(1), before = m_live;
    int rc;
    cry_mpi *nil = NULL;

    memset(a, 0xA5, sizeof(a));
    rc = n == 1 ? cry_mpi_init_list(&a[0], nil) :
         n == 2 ? cry_mpi_init_list(&a[0], &a[1], nil) :
         n == 3 ? cry_mpi_init_list(&a[0], &a[1], &a[2], nil) :
         n == 4 ? cry_mpi_init_list(&a[0], &a[1], &a[2], &a[3], nil) :
                  cry_mpi_init_list(&a[0], &a[1], &a[2], &a[3], &a[4], nil);
    outi(rc);
    if (rc == 0) {
        long i;

        for (i = 0; i < n; i++)
            outn(&a[i]);
        if (n == 1)
            cry_mpi_clear_list(&a[0], nil);
        else if (n == 2)
            cry_mpi_clear_list(&a[0], &a[1], nil);
        else if (n == 3)
            cry_mpi_clear_list(&a[0], &a[1], &a[2], nil);
        else if (n == 4)
            cry_mpi_clear_list(&a[0], &a[1], &a[2], &a[3], nil);
        else
            cry_mpi_clear_list(&a[0], &a[1], &a[2], &a[3], &a[4], nil);
    }
    outi(m_live - before);
}

const struct cmd mpi_cmds[] = {
    { "initlist", c_initlist },
    { "rnd", c_rnd }, { "rand", c_rand }, { "randrange", c_randrange },
    { "isprime", c_isprime }, { "isprimes", c_isprimes }, { "prime", c_prime }, { "print", c_print },
    { "mset", c_mset }, { "bin", c_bin }, { "un", c_un }, { "muldig", c_muldig },
    { "div", c_div }, { "mod", c_mod }, { "divabs", c_divabs }, { "modexp", c_modexp },
    { "shl", c_shl }, { "shr", c_shr }, { "cmp", c_cmp }, { "cmpabs", c_cmpabs },
    { "info", c_info }, { "swap", c_swap }, { "zero", c_zero },
    { "setint", c_setint }, { "getint", c_getint }, { "loadbin", c_loadbin },
    { "storebin", c_storebin }, { "loadstr", c_loadstr }, { "storestr", c_storestr },
    { "init", c_init }, { "clear", c_clear },
    { NULL, NULL }
};
