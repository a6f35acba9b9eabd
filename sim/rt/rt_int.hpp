#ifndef SIM_RT_INT_HPP
#define SIM_RT_INT_HPP
#include "rt.hpp"
#include <pthread.h>
namespace rt {
static const uintptr_t ARENA_BASE = 0x100000000000ull;
static const uintptr_t ARENA_SZ   = 0x40000000ull;              // 1 GB
static const uintptr_t MAINSTACK_BASE = ARENA_BASE+ARENA_SZ;
static const uintptr_t MAINSTACK_SZ   = 0x800000ull;            // 8 MB, the usual limit
static const uintptr_t STACK_BASE = MAINSTACK_BASE+MAINSTACK_SZ;
static const uintptr_t STACK_SZ   = 0x800000ull;                // 8 MB each, the default of real threads
static const uintptr_t STACK_GUARD = 0x10000ull;
static const uintptr_t REGION_END = STACK_BASE + uintptr_t(MAXT)*STACK_SZ;
static const uintptr_t SHADOW_BASE  = 0x200000000000ull;
static const uintptr_t GSHADOW_BASE = 0x210000000000ull;
static const uintptr_t ASHADOW_BASE = 0x220000000000ull;
enum { MAXBLK = 1<<20, PCTMAX = 64, NCLASS = 96, NWS = 32 };
enum State { IDLE, RUN, BLOCK };
enum Pol { P_SERIAL, P_RAND, P_PCT, P_RR, P_LIST };
struct Cell { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t write; uint8_t atomic; };
struct Sync { uint32_t vc[MAXT]; };

// Heap block header.  operator new hands out addresses = 16 mod 32 (the weakest alignment the
// ABI promises), fftw_malloc and aligned allocation hand out 128-byte aligned addresses.
struct Hdr {
   uint32_t magic; uint16_t cls; uint8_t live, simd;
   uint64_t seq;
   Hdr *next, *prev;
   size_t size, chunk;
   uint64_t idx;
   uintptr_t user;
};
enum { OFF_NEW = 80, OFF_SIMD = 128, CHUNK_ALIGN = 128 };

struct WS {                 // one work-sharing construct of a team
   int users;               // threads that have left it
   bool init, ull;
   long first, next, end, incr, chunk; int sched;
   unsigned long long unext, uend, uincr; bool up;
   int sec_next, sec_n;
   void *copy; bool copy_ready; bool taken;
   long ordered_next;
   uint64_t serial;         // which construct occupies the slot
   Sync sync;
};
struct Th; struct Team;
struct Task {               // an explicit task, or the implicit task of a team's thread
   void (*fn)(void*); void *data; void *mem;
   Task *parent, *next, *group_of;   // group_of: the task whose taskgroup it belongs to
   int refs, children, group_n, group_depth; bool final_;
   Sync create, kids;       // clocks: at creation; of the finished children
};
struct Team {
   bool used;
   int n, level, active_level, pending;
   Team *parent; int parent_tnum;
   uint32_t bar_count, bar_gen;
   Sync bar_sync;
   WS ws[NWS];
   void (*fn)(void*); void *data;
   WS pre; bool has_pre;    // work shared by a combined parallel construct
   long region;
   Task *tasks; int ntasks, outstanding; bool end_bar;   // waiting tasks; tasks not finished
};
struct Th {
   int id, state, tnum, prio, go;
   pthread_t pt;
   uint32_t vc[MAXT];
   void (*fn)(void*); void *arg;
   int *pending; Th *parent;
   Team *team; WS *ws; uint64_t wsi; Task *task;
   long olo, ohi;           // logical iterations this thread holds of an ordered loop
   void *guard; const char *why;
   long lb, le; unsigned long long ulb, ule;
   void *fs[64]; unsigned fsd, fs_base;   // return addresses of the instrumented functions now active (top 64)
};
struct G {
   bool active;
   uint64_t ev, next_ev, next_sched, stop_ev, crash_ev, budget;
   uint64_t hash, shash;
   uint64_t rng_sched, rng_env, rng_wl;
   long long race, mem; int par;
   int nthreads, nthreads2, max_levels; double p_short; int stall; uint64_t stall_from;
   Pol pol; double gap;
   uint64_t pct_pt[PCTMAX]; int pct_i, pct_n, low_prio;
   struct SwE { uint64_t ev; int tid; } *list; uint64_t list_i, list_n;
   Th *cur; long cur_region;
   Th th[MAXT]; int nth, nrun_possible;
   unsigned alloc_pol, quarantine; uint64_t poison, poison_free; int stack_fill;
   uint64_t fail_site, fail_nth, fail_seen; double fail_p; int count_sites; bool fail_armed; void *alloc_pc;
   int fail_kind; uint64_t fail_at, fail_at_rel, fail_len, alloc_count;
   uint64_t seq, live_n, live_b; uintptr_t brk;
   Hdr **blk; uint64_t nblk;
   Hdr *fl_head[NCLASS], *fl_tail[NCLASS]; unsigned fl_n[NCLASS];
   uintptr_t glob_lo, glob_hi;
   uint64_t clock_ns; int clock_mode; int planner; bool tasks_seen;
   Team team0;
};
extern G g;

Hdr *find_block(uintptr_t a);
void describe(uintptr_t a, char *b, size_t n);
void block(const char *why);
void wake(Th *t);
void wait_on(void *obj, const char *why);   // block until wake_all(obj)
void wake_all(void *obj);
void strong_point();
void yield_point();
Th  *start_thread(void (*fn)(void*), void *arg, int *pending, Th *parent);
void vc_acquire(Th *t, Sync *s);
void vc_release(Th *t, Sync *s);
Sync *sync_of(const void *p);
Team *new_team();
void io_init();
uint64_t sched_rand();
void mixhash(uint64_t v);
void sync_stats();
void terminate_signal();   // the moment at which the run is told to end
void arm_alloc_faults();
void site_report();
void strong_alloc_point();
void access_slow(uintptr_t a, size_t sz, bool write, bool atomic, void *pc);
void die_here(int rc);
}
#endif
