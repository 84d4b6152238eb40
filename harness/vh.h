/* Harness base: PRNG, case loop, event counting, violation reporting. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
typedef uint8_t u8;

extern uint64_t vh_seed, vh_case;
extern const char *vh_mode;      /* sub-workload name given on the command line */
extern int vh_thorough, vh_verbose;

/* --- PRNG (per case, derived from mode+seed+case) --- */
uint64_t rnd(void);
static inline uint64_t rn(uint64_t n) { return n ? rnd() % n : 0; }      /* 0..n-1 */
static inline int chance(int num, int den) { return (int)(rnd() % den) < num; }
void rbytes(void *p, size_t n);
/* structured content: random, zeros, ones, sparse, repeated qwords */
void rcontent(void *p, size_t n);
/* message length with weight on small values and block/section boundaries */
size_t rlen(size_t max);
/* 32-byte (or n-byte) key: random or structured */
void rkey(void *p, size_t n);
void rkey_next(unsigned char *k, size_t n);

/* --- observations --- */
void vh_count(const char *key, long n);            /* named event counter */
void vh_sig(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* signature of a distinct non-trivial observation */
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vh_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* trace of the current case, dumped on violation */
int vh_log_on(void);

/* --- verdicts --- */
/* key: stable identification of what failed (used for known findings) */
void vh_viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void vh_fatal(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); /* harness error */
extern int vh_case_failed;
#define HARN(c) do { if (!(c)) vh_fatal("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)
/* an operation of the code under test that has to succeed: violation otherwise, and the case ends */
#define ENG(c) do { if (!(c)) vh_eng_failed(__FILE__, __LINE__, #c); } while (0)
void vh_eng_failed(const char *file, int line, const char *what) __attribute__((noreturn));
const char *vh_hex(const void *p, size_t n);       /* rotating static buffers */

/* a check program defines these */
typedef struct { const char *name; void (*run)(void); void (*setup)(void); void (*done)(void); } vh_workload;
extern const vh_workload vh_workloads[];
/* defaults for engine-based programs live in vheng.c */
void vh_program_init(int argc, char **argv);
void vh_program_exit(void);
#endif
