// Deterministic simulation kernel: the platform API of reactor-c plus in-memory sockets, on
// threads of which exactly one runs at a time, under a seeded scheduler and a virtual clock.
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
typedef int64_t sim_time_t;

// Emit one line to the trace (the line should be a JSON object; newline is added).
void sim_emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_clock_mark(void);
sim_time_t sim_clock_age(void);
void sim_clock_read(sim_time_t v);
sim_time_t sim_clock_value(void);
sim_time_t sim_now(void);            // Virtual time; reading it never advances it.
void sim_sleep(sim_time_t d);        // Block the calling thread for d of virtual time.
void sim_yield(void);                // A scheduling point.
void sim_atomic_begin(void);         // Until sim_atomic_end, the thread is switched out only if it blocks.
void sim_atomic_end(void);
void sim_freeze_clock(int on);       // While on, reading the clock does not advance it.
uint32_t sim_rand(void);             // Random numbers for the harness (seeded, separate stream).
int sim_thread_create(void* (*fn)(void*), void* arg, const char* name);
void sim_wait_quiescent(void);       // Block until no other thread can run without time advancing.
void sim_wait_quiescent_notime(void);
int sim_thread_index(void);
int sim_node_index(void);
void sim_kill_node(int node);        // Crash a node: its threads stop, its sockets are closed.
void sim_exit(int code) __attribute__((noreturn));
const char* sim_param(const char* key, const char* dflt); // Scenario parameters.
long sim_paraml(const char* key, long dflt);
uint64_t sim_step(void);
int sim_block_count(void); // number of times the calling thread has been blocked
void sim_finish(int code) __attribute__((noreturn)); // End of the whole run.

// Direct socket control for harness code.
int sim_sock_pending(int fd); // bytes readable now
void sim_set_latency(int fd, sim_time_t lo, sim_time_t hi);
#endif
