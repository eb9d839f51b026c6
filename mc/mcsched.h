/*
 * Controlled scheduler: logical threads run the real, instrumented code as
 * coroutines; every access to a registered shared region is a scheduling
 * point, and the next thread to move is a choice of the model checker.
 */
#ifndef SCHED_H
#define SCHED_H

#include "mc.h"

#define SCHED_THREADS 4

/* start a new system: forgets regions, threads */
void sched_reset(void);
/* every access of [ptr, ptr + len) is a scheduling point; block copies move grain bytes at a time */
void sched_shared(void *ptr, size_t len, size_t grain);
/* add a thread; returns its number */
int sched_thread(void (*fn)(int self, void *arg), void *arg);
/*
 * Run all threads to completion under every schedule.  monitor (optional)
 * returns a hash of all harness state that later checks depend on.
 */
void sched_run(uint64_t (*monitor)(void));
/*
 * From inside a thread, between two operations: its local state is completely
 * described by hash (the history of values it read no longer matters).
 */
void sched_local(uint64_t hash);
/* called between any two steps (optional): sees every state the schedule goes through */
extern void (*sched_observer)(void);
/* number of the running thread, -1 outside of sched_run() */
int sched_self(void);
/* accesses in between are not scheduled (harness code) */
void sched_pause(void);
void sched_resume(void);

#endif
