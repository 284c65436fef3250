#define CORE
#include "h.h"
#include <cry/prng.h>
#include <execinfo.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

char *tok[MAXTOK];
int ntok;

#define MAXOWN 256
static void *own[MAXOWN];
static int nown;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

void die(const char *msg)
{
    printf("! %s\n", msg);
    fflush(stdout);
    _exit(99);
}

/* ---- allocator interposition ------------------------------------------- */
long m_live, m_count, m_fail_at;
int m_on, m_failed;
int m_fill = 0xA5;

void m_begin(long fail_at)
{
    m_on = 1;
    m_count = 0;
    m_failed = 0;
    m_fail_at = fail_at;
}

void m_end(void)
{
    m_on = 0;
}

/* the places allocations come from: the first and the last one of each chain of callers */
#define MAXSITE 4096
#define CALLERS 7
static struct { unsigned long id; long first, last; } site[MAXSITE];
static int nsite, m_sites;

static void note_site(void)
{
    void *f[CALLERS + 2];
    int n = backtrace(f, CALLERS + 2), i;
    unsigned long h = 5381;

    for (i = 2; i < n; i++)
        h = h * 1000003UL ^ (unsigned long)f[i];
    for (i = 0; i < nsite && site[i].id != h; i++)
        ;
    if (i == MAXSITE)
        return;
    if (i == nsite) {
        site[nsite].id = h;
        site[nsite++].first = m_count;
    }
    site[i].last = m_count;
}

static int refuse(void)
{
    if (!m_on)
        return 0;
    m_count++;
    if (m_sites)
        note_site();
    if (m_fail_at && m_count == m_fail_at) {
        m_failed = 1;
        return 1;
    }
    return 0;
}

void *__wrap_malloc(size_t n)
{
    void *p;

    if (refuse())
        return NULL;
    p = __real_malloc(n);
    if (p) {
        memset(p, m_fill, n);
        m_live++;
    }
    return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
    void *p;

    if (refuse())
        return NULL;
    p = __real_calloc(a, b);
    if (p)
        m_live++;
    return p;
}

void *__wrap_realloc(void *o, size_t n)
{
    void *p;

    if (refuse())
        return NULL;
    p = __real_realloc(o, n);
    if (p && !o) {
        memset(p, m_fill, n);
        m_live++;
    }
    return p;
}

void *h_malloc(size_t n)
{
    void *p = __real_malloc(n);

    if (!p)
        die("out of harness memory");
    memset(p, m_fill, n);
    m_live++;
    return p;
}

void *h_calloc(size_t a, size_t b)
{
    void *p = h_malloc(a * b);

    memset(p, 0, a * b);
    return p;
}

/* blocks that held a secret when they were put on watch */
#define MAXWATCH 16
static struct { const unsigned char *p; size_t n; } watch[MAXWATCH];
static int nwatch;
static long m_left;

void m_watch(const void *p, size_t n)
{
    if (p && n) {
        if (nwatch == MAXWATCH)
            die("too many blocks on watch");
        watch[nwatch].p = p;
        watch[nwatch++].n = n;
    }
}

static int still_there(int i)
{
    size_t k;

    for (k = 0; k < watch[i].n; k++)
        if (watch[i].p[k])
            return 1;
    return 0;
}

/* how many of them were given back with anything in them, or not at all and still hold something */
long m_watched(void)
{
    long r = m_left;
    int i;

    for (i = 0; i < nwatch; i++)
        if (watch[i].p)
            r += still_there(i);
    nwatch = 0;
    m_left = 0;
    return r;
}

void __wrap_free(void *p)
{
    int i;

    for (i = 0; p && i < nwatch; i++)
        if (watch[i].p == p) {
            m_left += still_there(i);
            watch[i].p = NULL;
        }
    if (p)
        m_live--;
    __real_free(p);
}

/* ---- injected randomness --------------------------------------------------- */
static unsigned char *rnd_buf;
static size_t rnd_len, rnd_pos;
/* calls of the generator so far; those from rnd_from to rnd_to (counted from 1) return rnd_val: one byte
   repeated, or a number (the rightmost bytes of it, after zeros) */
static long rnd_calls, rnd_from, rnd_to;
static unsigned char rnd_val[1024];
static size_t rnd_vlen;
int __real_cry_prng_aes_rand(unsigned char *buf, size_t siz);

void rnd_set(const unsigned char *p, size_t n)
{
    __real_free(rnd_buf);
    rnd_buf = __real_malloc(n ? n : 1);
    memcpy(rnd_buf, p, n);
    rnd_len = n;
    rnd_pos = 0;
}

int __wrap_cry_prng_aes_rand(unsigned char *buf, size_t siz)
{
    rnd_calls++;
    if (rnd_calls >= rnd_from && rnd_calls <= rnd_to) {
        size_t i;

        for (i = 0; i < siz; i++)
            buf[siz - 1 - i] = rnd_vlen == 1 ? rnd_val[0] : i < rnd_vlen ? rnd_val[rnd_vlen - 1 - i] : 0;
        return 0;
    }
    while (siz && rnd_pos < rnd_len) {
        *buf++ = rnd_buf[rnd_pos++];
        siz--;
    }
    return siz ? __real_cry_prng_aes_rand(buf, siz) : 0;
}

/* ---- tokens -------------------------------------------------------------- */
long argi(int k)
{
    if (k >= ntok)
        die("missing argument");
    return strtol(tok[k], NULL, 10);
}

static int hv(int c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    die("bad hex");
    return 0;
}

unsigned char *scratch(size_t len, int c)
{
    unsigned char *p = __real_malloc(len ? len : 1);

    if (!p || nown == MAXOWN)
        die("out of harness memory");
    if (!len) {
        /* a zero-length buffer: hand out the address just past a block, so that any access is caught */
        own[nown++] = p;
        return p + 1;
    }
    memset(p, c, len);
    own[nown++] = p;
    return p;
}

unsigned char *argb(int k, size_t *len)
{
    size_t i, n;
    unsigned char *p;
    const char *s;

    if (k >= ntok || tok[k][0] != 'x')
        die("bytes expected");
    s = tok[k] + 1;
    n = strlen(s) / 2;
    p = scratch(n, 0);
    for (i = 0; i < n; i++)
        p[i] = (unsigned char)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
    if (len)
        *len = n;
    return p;
}

void outi(long v)
{
    printf(" %ld", v);
}

void outb(const void *q, size_t len)
{
    const unsigned char *p = q;
    size_t i;

    printf(" x");
    for (i = 0; i < len; i++)
        printf("%02x", p[i]);
}

void outn(const cry_mpi *m)
{
    size_t i;
    int k, first = 1;
    const unsigned long mask = 0xff;

    if (m->used > m->alloc || (m->used && !m->data)) {
        printf(" nC");     /* corrupt */
        return;
    }
    if (m->used && m->data[m->used - 1] == 0) {
        printf(" nD");     /* denormal: leading zero digit */
        return;
    }
    printf(" n%s", m->sign ? "-" : "");
    for (i = m->used; i-- > 0;) {
        for (k = (int)sizeof(cry_mpi_digit) - 1; k >= 0; k--) {
            unsigned b = (unsigned)(((unsigned long)m->data[i] >> (8 * k)) & mask);
            if (first && b == 0)
                continue;
            first = 0;
            printf("%02x", b);
        }
    }
}

void outstate(void)
{
    printf(" |");
}

/* allocated so that the library may realloc/free it */
void mpi_put(cry_mpi *m, int k, size_t extra)
{
    const char *s;
    size_t n, nb, digs, i;
    int neg = 0;

    if (k >= ntok || tok[k][0] != 'n')
        die("number expected");
    s = tok[k] + 1;
    if (*s == '-') {
        neg = 1;
        s++;
    }
    n = strlen(s);
    nb = n / 2;
    digs = (nb + sizeof(cry_mpi_digit) - 1) / sizeof(cry_mpi_digit);
    m->sign = neg;
    m->used = digs;
    m->alloc = digs + extra;
    m->data = NULL;
    if (m->alloc == 0)
        m->alloc = 1;
    m->data = h_malloc(m->alloc * sizeof(cry_mpi_digit));
    for (i = 0; i < digs; i++)
        m->data[i] = 0;
    for (i = 0; i < nb; i++) {
        unsigned char b = (unsigned char)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
        size_t pos = nb - 1 - i;
        m->data[pos / sizeof(cry_mpi_digit)] |=
            (cry_mpi_digit)((cry_mpi_digit)b << (8 * (pos % sizeof(cry_mpi_digit))));
    }
}

void mpi_drop(cry_mpi *m)
{
    if (m->data)
        free(m->data);
    memset(m, 0, sizeof(*m));
}

static void on_limit(int s)
{
    static const char msg[] = "! timeout\n";

    (void)s;
    if (write(1, msg, sizeof(msg) - 1) < 0)
        _exit(98);
    _exit(98);
}

static void arm(long secs)
{
    struct itimerval it;

    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, NULL);
}

static void cmd_new(void)
{
    mpi_reset();
    sym_reset();
    pk_reset();
    rnd_set((const unsigned char *)"", 0);
    rnd_calls = 0;
    rnd_from = 1;
    rnd_to = 0;
    if (ntok > 2) {                     /* seed of the library's generator */
        unsigned char seed[32] = { 0 };
        long v = argi(2);

        memcpy(seed, &v, sizeof(v));
        cry_prng_aes_init(seed, sizeof(seed));
    }
    arm(ntok > 1 ? argi(1) : 10);
}

/* fail n: the n-th allocation of the next command fails (0: none does, they are only counted) */
static long pending = -1;
static void cmd_fail(void)
{
    pending = argi(1);
}

/* faults -> whether it did, and how many allocations there were */
static void cmd_faults(void)
{
    outi(m_failed);
    outi(m_count);
}

/* sites 1: note the places; sites -> first and last allocation of each */
static void cmd_sites(void)
{
    int i;

    m_sites = ntok > 1;
    if (m_sites) {
        nsite = 0;
        return;
    }
    for (i = 0; i < nsite; i++) {
        outi(site[i].first);
        outi(site[i].last);
    }
}

/* giveback -> allocations left when everything has been cleared by the library */
static void cmd_giveback(void)
{
    mpi_giveback();
    pk_giveback();
    outi(m_live);
    mpi_reset();
    pk_reset();
}

/* rndat from num bytes: those calls of the generator yield nothing else; rndcnt -> calls so far */
static void cmd_rndat(void)
{
    rnd_from = argi(1);
    rnd_to = rnd_from + argi(2) - 1;
    {
        unsigned char *b = argb(3, &rnd_vlen);

        if (rnd_vlen > sizeof(rnd_val))
            die("rndat");
        memcpy(rnd_val, b, rnd_vlen);
    }
}

static void cmd_rndcnt(void)
{
    outi(rnd_calls);
}

static const struct cmd core_cmds[] = {
    { "new", cmd_new }, { "fail", cmd_fail }, { "faults", cmd_faults }, { "giveback", cmd_giveback },
    { "sites", cmd_sites }, { "rndat", cmd_rndat }, { "rndcnt", cmd_rndcnt }, { NULL, NULL }
};

static cmd_f find(const struct cmd *t, const char *name)
{
    for (; t->name; t++)
        if (!strcmp(t->name, name))
            return t->f;
    return NULL;
}

int main(void)
{
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    const char *f = getenv("H_FILL");

    if (f)
        m_fill = (int)strtol(f, NULL, 0);
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    signal(SIGPROF, on_limit);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        char *p = line;
        cmd_f c;

        if (line[n - 1] == '\n')
            line[n - 1] = 0;
        ntok = 0;
        while ((p = strtok(ntok ? NULL : p, " ")) != NULL && ntok < MAXTOK)
            tok[ntok++] = p;
        if (!ntok)
            continue;
        c = find(core_cmds, tok[0]);
        if (!c)
            c = find(mpi_cmds, tok[0]);
        if (!c)
            c = find(sym_cmds, tok[0]);
        if (!c)
            c = find(pk_cmds, tok[0]);
        if (!c)
            die("unknown command");
        fflush(stdout);
        printf("=");
        if (pending >= 0 && c != cmd_fail) {
            m_begin(pending);
            pending = -1;
            c();
            m_end();
        } else {
            c();
        }
        printf("\n");
        while (nown)
            __real_free(own[--nown]);
    }
    fflush(stdout);
    return 0;
}
