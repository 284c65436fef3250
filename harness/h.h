/*
 * Replay harness: reads one command per line, executes it on the library
 * built from /repo, writes one result line per command.
 *
 * Tokens:  123 / -5   machine integer
 *          x0aff      byte string (x alone: empty)
 *          n1f, n-1f  big integer (n alone: zero)
 * Result:  "= tok tok ... | tok tok ..."  results, then projected state.
 */
#ifndef H_H
#define H_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cry/mpi.h>

#define MAXTOK 4096
extern char *tok[MAXTOK];
extern int ntok;

void die(const char *msg);
long argi(int k);
/* exact-size heap copy of the bytes of token k (never NULL), owned by the command */
unsigned char *argb(int k, size_t *len);
/* exact-size heap buffer filled with c, owned by the command */
unsigned char *scratch(size_t len, int c);

void outi(long v);
void outb(const void *p, size_t len);
void outn(const cry_mpi *m);            /* projects the raw struct */
void outstate(void);                    /* separator */

/* put the integer of token k into m, writing the struct directly */
void mpi_put(cry_mpi *m, int k, size_t extra);
void mpi_drop(cry_mpi *m);              /* free without the library */

/* malloc interposition */
extern long m_live;                     /* live library allocations while counting */
extern long m_count, m_fail_at;         /* allocations so far; fail the n-th (1-based), 0: none */
extern int m_on, m_fill;
extern int m_failed;
void m_begin(long fail_at);
void m_end(void);
/* secrets that have to be gone when their memory is */
void m_watch(const void *p, size_t n);
long m_watched(void);
/* the harness's own allocations are counted like the library's, but never fail */
void *h_malloc(size_t n);
void *h_calloc(size_t a, size_t b);
#ifndef CORE
#define malloc h_malloc
#define calloc h_calloc
#endif

/* bytes the library's generator delivers before its own stream */
void rnd_set(const unsigned char *p, size_t n);

typedef void (*cmd_f)(void);
struct cmd { const char *name; cmd_f f; };
extern const struct cmd mpi_cmds[], sym_cmds[], pk_cmds[];
void mpi_reset(void);
void sym_reset(void);
void pk_reset(void);
/* give everything back through the library's own clear functions */
void mpi_giveback(void);
void pk_giveback(void);
#endif
