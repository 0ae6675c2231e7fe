/*
 * sim: a deterministic, snapshot-restoring execution environment in which the
 * real code of the server runs as one process on a simulated kernel (sockets,
 * epoll, pipes, time), simulated pthreads (fibers under a controlled
 * scheduler) and a private heap, and in which every choice (schedule, fault,
 * input) is enumerated exhaustively by a stateless depth-first search.
 */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>

/* ---------------------------------------------------------------- choices */
/* Free choice of one of n alternatives: all of them are explored. */
int  mc_choose(int n, const char *label);
/* Alternative 0 is free, each of the others costs one unit of the fault budget. */
int  mc_fault(int n, const char *label);
/* Adds to the set of distinct outcomes seen. */
void mc_outcome(uint64_t h);
/* Records a written-out example of what was explored (a few are kept). */
void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
bool mc_want_sample(void);
/* Counts n individual cases evaluated (besides executions). */
void mc_count(uint64_t n);
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
/* The property is violated: records the path for replay and ends. sig
 * identifies the kind of violation (for the known findings). */
void mc_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf,2,3), noreturn));
#define MC_CHECK(c, sig, ...) do { if (!(c)) mc_fail(sig, __VA_ARGS__); } while (0)
/* The execution ends here, without a verdict (e.g. a pruned combination). */
void mc_prune(void) __attribute__((noreturn));
/* Everything before is executed once; every execution starts from here. */
void mc_checkpoint(void);

/* --------------------------------------------------------- configuration */
typedef struct {
    /* scheduling */
    bool  mc;               /* explore schedules (else: run to block, round robin) */
    int   sched_budget;     /* preemptions / delays per execution */
    bool  delay_bound;      /* true: k-th alternative costs k; false: preemption bound, free choice at blocking points */
    bool  signal_choice;    /* explore which waiter a signal wakes */
    bool  sp_sync, sp_sys, sp_mem; /* scheduling points: sync ops, system calls, shared memory operations */
    /* faults */
    int   fault_budget;
    bool  f_short_read, f_short_write, f_eagain_write, f_eintr_read, f_eintr_write,
          f_eintr_wait, f_accept, f_malloc, f_spurious, f_err_write, f_err_read;
    int   short_write_all;  /* explore every accepted length up to this (else 1, half, n-1) */
    int   short_read_all;
    uint32_t fault_conns;   /* connections whose reads and writes may fail (bit mask), 0 = all */
    /* races: 0 ignore, 1 the racing accesses become scheduling points, 2 violation */
    int   races;
    /* bounds */
    long  max_steps;        /* per execution */
    long  max_sleeps;
    bool  auto_time;        /* at quiescence, let timed waits elapse */
    bool  log;              /* format log messages (else they are skipped) */
    bool  no_idle_check;    /* do not check at quiescence that workers are idle */
} sim_cfg_t;
extern sim_cfg_t sim_cfg;
/* switches fault injection on/off inside an execution */
extern bool sim_faults_on;
extern bool sim_sched_on;

/* ------------------------------------------------------------- scenarios */
typedef void (*scenario_fn)(long arg);
void sim_scenario(const char *name, scenario_fn fn, long arg);
extern const char *sim_property;
extern bool sim_thorough;
/* provided by the harness: registers the scenarios and sets sim_cfg */
void harness_init(void);
extern const char *harness_rule;

/* --------------------------------------------------------------- threads */
/* A fiber of the harness (a client), scheduled like any other thread. */
int  sim_spawn(const char *name, void (*fn)(void *), void *arg);
void sim_join(int tid);
/* blocks until every other thread is idle */
void sim_quiesce(void);
void sim_yield(void);
void sim_point(void);
void sim_wait_until(bool (*cond)(void *), void *arg);
/* lets time pass: everything that is due happens */
void sim_advance(long ms);
int64_t sim_now_ms(void);
void sim_raise(int sig);
/* number of server threads that have not ended */
int  sim_live_threads(void);
/* whether a thread (0: the scenario) waits for another one to end */
bool sim_joining(int tid);
/* declares the current blocking positions of all threads as the idle ones */
void sim_mark_idle(void);
void sim_dump(void);
const char *sim_threads_text(void);

/* --------------------------------------------------------------- network */
int  sim_connect(int port);                 /* returns connection id, -1 if refused */
void sim_send(int c, const void *buf, size_t n);
void sim_shutdown_client(int c);            /* FIN */
void sim_close_client(int c);               /* FIN, later data is answered by RST */
void sim_reset_client(int c);
void sim_window(int c, long n);             /* bytes the server may still write; -1 unlimited */
const uint8_t *sim_out(int c, size_t *n);   /* all bytes the server has written */
bool sim_server_closed(int c);              /* the server closed its descriptor */
bool sim_accepted(int c);
const char *sim_ip(int c);                    /* address and port of the client */
int  sim_port(int c);
int  sim_fd_of(int c);                      /* descriptor (last) used by the server for c */
size_t sim_unread(int c);                   /* bytes not read by the server yet */
bool sim_armed_read(int c);                 /* registered and enabled for reading */
bool sim_armed_write(int c);
int  sim_open_fds(void);
int  sim_conn_closes(int c);
bool sim_is_reset(int c);                   /* reset by either side or aborted */

/* ---------------------------------------------------------------- memory */
typedef struct { uint64_t blocks, bytes; } sim_mem_t;
sim_mem_t sim_live(void);
void sim_live_dump(uint64_t since_seq);
uint64_t sim_alloc_seq(void);
uint64_t sim_malloc_count(void);
extern long sim_fread_cut;             /* reading a file ends after so many bytes (-1: not) */
extern long sim_fail_malloc_at;    /* fail the n-th allocation from now (0 = none) */
void sim_heap_check(const void *p, size_t n, bool write, const char *what);
/* memory of a stand-in library: tracked as the server's, never refused */
void *sim_alloc_lib(size_t n);
const char *sim_live_text(uint64_t since_seq);
/* exact-size copy with redzones, freed by sim_xfree */
void *sim_xalloc(size_t n);
void sim_xfree(void *p);

/* -------------------------------------------------------------- plugins */
typedef struct { const char *name; void *addr; } sim_sym_t;
typedef struct { const char *path; const sim_sym_t *syms; } sim_plugin_t;
int sim_dl_opens(const char *basename), sim_dl_closes(const char *basename);
void sim_register_plugin(const char *basename, const sim_sym_t *syms);

extern bool sim_verbose;
void sim_trace(const char *fmt, ...) __attribute__((format(printf,1,2)));

/* --------------------------- sleep: passing memory operations (tsan build) */
void sim_mem_ignore(bool on);
#endif
