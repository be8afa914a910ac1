/*
 * Exhaustive-enumeration framework ("mc"): stateless exploration of the real code.
 *
 * A harness enumerates a bounded space of cases.  A case is a string key that can be replayed on
 * its own.  The space is split over worker processes; crashes, sanitizer aborts, early exits and
 * hangs of the code under test are attributed to the case that was running.
 */
#pragma once
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>

typedef uint64_t u64;

/* ---- supplied by a harness ---- */
extern const char *mc_property;          /* property id this binary decides */
void mc_worker_init(void);               /* once per worker process */
void mc_enumerate(int thorough);         /* walks the whole space, calling MC_CASE for each case */
void mc_run(const char *key);            /* executes one case, calls mc_fail for violations */

/* ---- supplied by the framework ---- */
bool mc_want(void);                      /* does the next case belong to this worker? */
void mc_do(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CASE(...) do { if (mc_want()) mc_do(__VA_ARGS__); } while (0)

/* sizes around the usual limits: MC_SIZES(n, above, upto) MC_CASE(...) */
static const int mc_sizes[] = { 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 600, 800, 999, 1000, 1001,
    1022, 1023, 1024, 1025, 1500, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define MC_SIZES(v, above, upto) for (int v##_ = 0, v; v##_ < (int)(sizeof mc_sizes / sizeof *mc_sizes) && (v = mc_sizes[v##_], true); v##_++) if (v > (above) && v <= (upto))

void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_context(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* which part of a case is running; appended to failures */
bool mc_failed(void);                    /* has the current case failed? */
void mc_state(u64 hash);                 /* a distinct state/tree/outcome was reached */
void mc_trans(u64 n);                    /* n transitions (operations on the implementation) were executed */
void mc_trace(u64 n);                    /* n model traces were replayed against the implementation */
void mc_count(int slot, u64 n);          /* free counters, named by mc_counter_names */
extern const char *mc_counter_names[8];  /* harness may set */
extern int mc_case_timeout;              /* seconds, default 20 */
extern int mc_tier;                      /* 0 quick, 1 thorough */

u64 mc_hash(const void *data, size_t len, u64 seed);
u64 mc_hash_str(const char *s, u64 seed);
static inline u64 mc_mix(u64 a, u64 b) { u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; return x; }

/* captured output of the code under test */
void mc_capture_begin(void);
void mc_capture_end(void);
extern char *mc_out; extern size_t mc_out_len;   /* stdout, NUL-terminated */
extern char *mc_err; extern size_t mc_err_len;   /* stderr, NUL-terminated */

/* calls fn(arg); an exit() from the code under test comes back here. Returns -1 when fn returned,
   otherwise the exit status. */
int mc_catch_exit(void (*fn)(void *), void *arg);

/* number of live heap blocks allocated through malloc (needs the asan build) */
long mc_live_blocks(void);

/* a scratch directory private to this worker, removed at the end */
const char *mc_scratch(void);
void mc_write_file(const char *path, const void *data, size_t len);
