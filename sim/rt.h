/* Simulated runtime: the heap, LAPACK failures, process exit and output streams
   as seen by the code under test.  Everything here is deterministic. */
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stddef.h>
#include <stdint.h>
#include <setjmp.h>
#include <stdio.h>
#ifdef __cplusplus
#include <cstdlib>
extern "C" {
#endif

enum { FILL_ZERO, FILL_FF, FILL_NAN, FILL_BIG, FILL_RANDOM, FILL_KEEP, N_FILLS };

typedef struct {
     int fill;              /* contents of fresh blocks */
     int reuse;             /* 1: freed blocks are handed out again (LIFO), 0: never */
     int skew;              /* extra distance between blocks (multiples of 64) */
     uint64_t fill_seed;
} rt_heap_knobs;

void rt_init(void);                       /* once per process */
void rt_reset(const rt_heap_knobs *k);    /* start of a run: empty heap */
void rt_set_knobs(const rt_heap_knobs *k);

void rt_thread(int t);                    /* the heap of the calling thread: 0 (default) .. 4 */
int rt_region(const void *p);             /* the heap an address is in, or -1 */

/* accounting */
long rt_live_blocks(void);
size_t rt_live_bytes(void);
long rt_total_allocs(void);
int  rt_check_heap(char *msg, size_t n);  /* canaries, bad frees: 0 ok */
void rt_owner(int owner);                 /* tag for following allocations */
long rt_live_blocks_of(int owner);
size_t rt_live_bytes_of(int owner);
const char *rt_describe_live(int owner);

/* faults; armed only inside an API call */
typedef struct {
     long alloc_k;          /* fail the k-th allocation (1..), 0 none */
     int  alloc_persist;    /* keep failing from the k-th on */
     long lapack_k;         /* fail the k-th LAPACK call, 0 none */
     int  lapack_family;    /* 0 any, else 1+index in list */
} rt_fault;
void rt_arm(const rt_fault *f);
void rt_disarm(void);
long rt_alloc_seen(void);   /* since arm */
long rt_lapack_seen(void);
int  rt_alloc_fired(void);
int  rt_lapack_fired(void);
const char *rt_lapack_fired_name(void);

/* calls into the code under test */
enum { RT_OK = 0, RT_EXIT = 1, RT_SIGNAL = 2 };
#ifdef __cplusplus
#define RT_TLS thread_local
#else
#define RT_TLS _Thread_local
#endif
extern RT_TLS sigjmp_buf rt_env;
extern RT_TLS int rt_in_call;
extern RT_TLS int rt_exit_status;
extern RT_TLS int rt_signal;
/* usage: int r = sigsetjmp(rt_env,1); if (!r) { rt_enter(); ...; rt_leave(); } */
void rt_enter(void);
void rt_leave(void);
void rt_poison_stack(unsigned char b, uint64_t seed);
extern int rt_stderr_bytes;

#ifdef __cplusplus
}
#endif
#endif
