// Deterministic scheduler for real threaded code (see vsched.cc).
#ifndef VSCHED_H
#define VSCHED_H
#include <cstdint>
#include <cstddef>
#include <string>

// How one execution is to be scheduled.
struct VsConfig {
	uint64_t seed = 1;
	int policy = 0;            // 0 random walk, 1 PCT-like priorities, 2 round robin with sticky runs
	double p_switch = 0.5;     // random walk: probability of a switch at a sync operation
	double p_mem = 0.0;        // probability of a switch at an instrumented memory access
	double p_spurious = 0.0;   // probability of a spurious condvar wake-up at a sync operation
	double p_early = 0.0;      // probability of moving the clock to the next deadline although threads can run
	int pct_changes = 3;       // PCT: number of priority change points
	int pct_horizon = 2000;    // PCT: steps over which they are spread
	uint64_t max_steps = 200000;
};

enum VsOutcome { VS_OK = 0, VS_DEADLOCK, VS_STEPLIMIT, VS_MISUSE };

// Turn scheduling on in the calling thread (which becomes thread 1) and off again.
void vs_start(const VsConfig &);
void vs_stop();
bool vs_active();
int  vs_tid();                 // id of the calling thread in the execution (1..), 0 when inactive
uint64_t vs_now_ns();          // virtual clock
void vs_set_now_ns(uint64_t);
void vs_step_wall_ns(int64_t delta);   // somebody sets the wall clock; sleeps are not affected
void vs_yield();               // a schedule point
uint64_t vs_rand();            // the harness's own random numbers, reproducible from the seed
uint64_t vs_steps();
size_t vs_live_threads();
size_t vs_runnable_others();   // other threads that could run now
// Block the calling thread until every other thread is blocked with no deadline (nothing can happen any more).
// Timed sleepers are run to their deadlines unless idle_ns of virtual time would pass: returns then.
void vs_wait_quiescent(uint64_t idle_ns = ~0ull);
// Block until pred() holds; pred is evaluated by the scheduler at every step (must not call sync operations).
void vs_wait_pred(bool (*pred)(void *), void *arg, uint64_t timeout_ns = ~0ull);
void vs_sleep_ns(uint64_t ns);
// Called (with scheduling off) when no thread can run, the step limit is hit, or a lock is misused.
// Must not return.
extern void (*vs_on_fatal)(VsOutcome, const std::string &what);
// Optional: called when the virtual clock advances because nothing could run
extern void (*vs_on_advance)(uint64_t now_ns);
std::string vs_dump();

// Event log: one JSON object per line
void vs_logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string &vs_log();
// no schedule points inside (for harness bookkeeping)
struct VsAtomic { VsAtomic(); ~VsAtomic(); };
#endif
