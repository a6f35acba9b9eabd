// Simulator runtime: one process, one running thread at a time, every choice from the plan.
// No std containers in here: templates shared with instrumented code would re-enter the runtime.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <cstddef>
#include <cstdint>

namespace rt {

enum { MAXT = 96, MAXV = 64, MSGLEN = 384, MAXSW = 1 << 16, MAXDATA = 1 << 16 };

// Result block, shared between the forked run and the server.
struct Result {
   uint32_t nviol;
   char viol[8][MSGLEN];      // "kind: text"
   uint64_t ev, hash, regions, team_threads, short_teams, preempt, forced, sync_ops;
   uint64_t sched_hash;       // hash of (region, thread) switch sequence
   uint64_t allocs, alloc_fail, fftw_allocs;
   uint64_t io_ops, io_open, io_read, io_write, io_close;
   uint64_t f_open, f_read_short, f_read_eintr, f_read_err, f_write_short, f_write_eintr,
            f_write_err, f_nospace, f_close, f_lost, f_grow, crashed, signals;
   uint64_t clock_reads, plan_calls, transforms, execs;
   uint64_t checks;           // oracle comparisons made
   uint64_t steps;            // simulated time steps
   double simtime;
   double maxerr;             // largest normalised error seen by an oracle (1 = at tolerance)
   uint64_t live_end;
   uint32_t finished;         // the scenario ran to its end
   int32_t  main_rc;
   uint32_t nsw;
   struct { uint64_t ev; uint32_t tid; } sw[MAXSW];
   uint32_t ndata;
   char data[MAXDATA];        // text produced by the scenario
};

struct Plan {                 // key=value;... parsed lookups
   const char *text;
   const char *get(const char *key, char *buf, size_t n) const; // nullptr when absent
   long long  i(const char *key, long long def) const;
   double     d(const char *key, double def) const;
   bool       has(const char *key) const;
};

extern Result *res;
extern Plan plan;

void server_init();                      // once, before forking runs
void child_init(Result *r, const char *plan_text);
void run_main(void (*fn)(void*), void *arg);  // run fn as simulated thread 0; returns when it is done

// scenario side
void set_active(bool);                   // instrumentation counts and checks only while active
void program_handler(int sig);            // runs the handler the program installed for this signal, if any
bool active();
struct Quiet { bool was; Quiet(); ~Quiet(); };  // oracle code: nothing counted, nothing scheduled
int  spawn(void (*fn)(void*), void *arg);       // a caller thread
void join_all();
void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void stop();                // end the run now (after a violation)
void out(const char *fmt, ...) __attribute__((format(printf,1,2)));
void note_err(double normalised);
uint64_t env_rand();                     // environment stream (poison, planner choice, clock)
uint64_t wl_rand();                      // workload stream
double   wl_unit();

// allocator
uint64_t live_blocks();
uint64_t live_bytes();
void*    sim_alloc(size_t n, bool simd);
void     sim_free(void*, int kind);
void     leak_report(uint64_t seq_from, char *buf, size_t n);
uint64_t alloc_seq();
bool     buffer_ok(const void *p, size_t n);   // [p,p+n) addressable (true when outside the arena)
size_t   buffer_len(const void *p);            // bytes from p to end of its block, SIZE_MAX if unknown

// events
void range(const void *p, size_t n, bool write);   // library access to a caller's buffer
void point();                                      // plain preemption point
}
#endif
