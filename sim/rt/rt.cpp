#include "rt.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "rt_int.hpp"

namespace rt {
Result *res = nullptr;
Plan plan{nullptr};
G g;

/* ---------------------------------------------------------------- plan */
const char *Plan::get(const char *key, char *buf, size_t n) const {
   size_t kl = strlen(key);
   const char *p = text;
   while (p && *p) {
      const char *e = strchr(p, ';');
      size_t len = e ? size_t(e-p) : strlen(p);
      if (len > kl && p[kl]=='=' && !memcmp(p,key,kl)) {
         size_t vl = len-kl-1; if (vl >= n) vl = n-1;
         memcpy(buf, p+kl+1, vl); buf[vl]=0;
         return buf;
      }
      p = e ? e+1 : nullptr;
   }
   return nullptr;
}
long long Plan::i(const char *k, long long def) const { char b[64]; return get(k,b,sizeof b) ? strtoll(b,nullptr,10) : def; }
double Plan::d(const char *k, double def) const { char b[64]; return get(k,b,sizeof b) ? strtod(b,nullptr) : def; }
bool Plan::has(const char *k) const { char b[8]; return get(k,b,sizeof b)!=nullptr; }

/* ---------------------------------------------------------------- prng */
static uint64_t splitmix(uint64_t &s) {
   uint64_t z = (s += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27))*0x94d049bb133111ebull; return z ^ (z>>31);
}
uint64_t env_rand() { return splitmix(g.rng_env); }
uint64_t wl_rand()  { return splitmix(g.rng_wl); }
double wl_unit() { return double(wl_rand()>>11)*(1.0/9007199254740992.0); }
uint64_t sched_rand() { return splitmix(g.rng_sched); }

/* ---------------------------------------------------------------- futex */
static void fwait(int *w) {
   while (__atomic_load_n(w,__ATOMIC_ACQUIRE)==0)
      syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
   __atomic_store_n(w,0,__ATOMIC_RELEASE);
}
static void fpost(int *w) {
   __atomic_store_n(w,1,__ATOMIC_RELEASE);
   syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

/* ---------------------------------------------------------------- reporting */
void violation(const char *kind, const char *fmt, ...) {
   if (res->nviol < 8) {
      char *b = res->viol[res->nviol];
      int k = snprintf(b, MSGLEN, "%s: ", kind);
      va_list ap; va_start(ap,fmt); vsnprintf(b+k, MSGLEN-k, fmt, ap); va_end(ap);
   }
   res->nviol++;
}
void sync_stats() {
   res->ev = g.ev; res->hash = g.hash; res->sched_hash = g.shash;
   res->live_end = g.live_n;
}
void stop() { sync_stats(); _exit(86); }
void out(const char *fmt, ...) {
   if (res->ndata >= MAXDATA-1) return;
   va_list ap; va_start(ap,fmt);
   int k = vsnprintf(res->data+res->ndata, MAXDATA-res->ndata, fmt, ap); va_end(ap);
   if (k<0) return;
   res->ndata += k; if (res->ndata > MAXDATA-1) res->ndata = MAXDATA-1;
}
void note_err(double e) { res->checks++; if (!(e<=res->maxerr)) res->maxerr = e; }
void set_active(bool a) { g.active = a; }
bool active() { return g.active; }
Quiet::Quiet() : was(g.active) { g.active=false; }
Quiet::~Quiet() { g.active=was; }

/* ---------------------------------------------------------------- threads and scheduler */
static inline void shash(uint64_t v) { g.shash = (g.shash ^ v)*0x100000001b3ull; g.shash ^= g.shash>>29; }
void mixhash(uint64_t v) { g.hash = (g.hash ^ v)*0x9e3779b97f4a7c15ull; g.hash ^= g.hash>>32; }

static void record_switch(int tid, bool forced) {
   if (res->nsw < MAXSW) { res->sw[res->nsw].ev = g.ev; res->sw[res->nsw].tid = tid; }
   res->nsw++;
   if (forced) res->forced++; else res->preempt++;
   shash(uint64_t(tid)+1 + (uint64_t(g.cur_region)<<8));
   mixhash(g.ev*131 + tid);
}
static bool is_runnable(Th *t) { return t->state==RUN; }

static const uint64_t FAIR = 2000000;
static void plan_next_event() {   // when is the next scheduler look?
   uint64_t nx = UINT64_MAX;
   switch (g.pol) {
      case P_SERIAL: nx = g.ev + FAIR; break;     /* every thread runs eventually: spinning code is legal */
      case P_RAND: { // geometric-ish gap with mean g.gap
         double u = double((sched_rand()>>11)+1)*(1.0/9007199254740993.0);
         double gap = -__builtin_log(u)*g.gap; if (gap < 1) gap = 1; if (gap > 1e12) gap = 1e12;
         nx = g.ev + uint64_t(gap); break; }
      case P_RR: nx = g.ev + uint64_t(g.gap < 1 ? 1 : g.gap); break;
      case P_PCT: while (g.pct_i < g.pct_n && g.pct_pt[g.pct_i] <= g.ev) g.pct_i++;
                  if (g.pct_i < g.pct_n) nx = g.pct_pt[g.pct_i];
                  if (nx > g.ev + 2000000) nx = g.ev + 2000000; /* fairness for spinning code */
                  break;
      case P_LIST: while (g.list_i < g.list_n && g.list[g.list_i].ev < g.ev) g.list_i++;
                   if (g.list_i < g.list_n) nx = g.list[g.list_i].ev;
                   if (nx > g.ev + 10*FAIR) nx = g.ev + 10*FAIR;
                   break;
   }
   g.next_sched = nx;
   g.next_ev = nx < g.stop_ev ? nx : g.stop_ev;
}

static int next_runnable() { for (int k=1;k<=g.nth;k++) { int c=(g.cur->id+k)%g.nth; if (is_runnable(&g.th[c])) return c; } return -1; }
static int pick(bool forced) {   // choose the thread to run now; -1 none
   int run[MAXT], n = 0;
   for (int i=0;i<g.nth;i++) if (is_runnable(&g.th[i])) run[n++] = i;
   if (!n) return -1;
   int cur = g.cur->id;
   switch (g.pol) {
      case P_LIST: {
         while (g.list_i < g.list_n && g.list[g.list_i].ev < g.ev) g.list_i++;
         if (g.list_i < g.list_n && g.list[g.list_i].ev == g.ev) {
            int want = g.list[g.list_i].tid; g.list_i++;
            for (int i=0;i<n;i++) if (run[i]==want) return want;
         }
         if (!forced) return cur;
         return run[0];
      }
      case P_SERIAL: return forced ? run[0] : cur;
      case P_RR: for (int k=1;k<=MAXT;k++) { int c=(cur+k)%MAXT; for (int i=0;i<n;i++) if (run[i]==c) return c; } return run[0];
      case P_PCT: { int best=run[0]; for (int i=1;i<n;i++) if (g.th[run[i]].prio > g.th[best].prio) best=run[i]; return best; }
      case P_RAND: default: {
         if (g.stall>=0 && n>1) { // a stalled thread runs only when nothing else can, but no stall lasts for ever
            bool any=false; for (int i=0;i<n;i++) any|=g.th[run[i]].tnum==g.stall;
            if (!any || g.ev>g.stall_from+2*FAIR) g.stall_from=g.ev;
            if (g.ev>g.stall_from+FAIR) return run[sched_rand()%n];
            int m=0; int r2[MAXT]; for (int i=0;i<n;i++) if (g.th[run[i]].tnum!=g.stall) r2[m++]=run[i];
            if (m) { memcpy(run,r2,sizeof(int)*m); n=m; }
         }
         return run[sched_rand()%n];
      }
   }
}

static void switch_to(int id) {
   Th *me = g.cur, *t = &g.th[id];
   if (t==me) return;
   g.cur = t;
   fpost(&t->go);
   fwait(&me->go);
}

void deadlock() {
   char b[200]; int k=0; b[0]=0;
   for (int i=0;i<g.nth && k<160;i++) if (g.th[i].state==BLOCK) k+=snprintf(b+k,sizeof b-k," t%d(%s)",i,g.th[i].why);
   violation("deadlock","no thread can run:%s",b);
   stop();
}

// current thread cannot continue until made runnable again
void block(const char *why) {
   Th *me = g.cur;
   me->state = BLOCK; me->why = why;
   for (;;) {
      g.ev++;
      int id = pick(true);
      if (id<0) deadlock();
      record_switch(id, true);
      plan_next_event();
      if (id==me->id) return;
      switch_to(id);
      if (me->state==RUN) return;
   }
}
void wait_on(void *obj, const char *why) { g.cur->guard=obj; block(why); g.cur->guard=nullptr; }
void wake_all(void *obj) { for (int i=0;i<g.nth;i++) if (g.th[i].state==BLOCK && g.th[i].guard==obj) g.th[i].state=RUN; }
void wake(Th *t) { if (t->state==BLOCK) t->state = RUN; }

void slow_event() {
   if (g.ev >= g.stop_ev) {
      if (g.crash_ev && g.ev >= g.crash_ev) { g.crash_ev=0; g.stop_ev=g.budget; terminate_signal(); }
      if (g.ev >= g.budget) { violation("no-progress","more than %llu events", (unsigned long long)g.budget); stop(); }
   }
   if (g.ev >= g.next_sched) {
      if (g.nrun_possible > 1) {
         if (g.pol==P_PCT) { g.cur->prio = g.low_prio--; }
         const bool fair = g.pol==P_SERIAL || (g.pol==P_LIST && !(g.list_i<g.list_n && g.list[g.list_i].ev<=g.ev));
         int id = fair ? next_runnable() : pick(false);
         if (id>=0 && id!=g.cur->id) { record_switch(id,false); plan_next_event(); switch_to(id); return; }
      }
      plan_next_event();
   }
}
void point() { if (!g.active) return; g.ev++; if (g.ev >= g.next_ev) slow_event(); }
// a point at which every policy gets a chance to switch
void strong_point() {
   if (!g.active) return;
   g.ev++;
   if (g.ev >= g.stop_ev) slow_event();
   if (g.nrun_possible <= 1 || g.pol==P_SERIAL) return;
   if (g.pol==P_RAND && (sched_rand() & 3)) return;
   if (g.pol==P_RR && (g.ev & 1)) return;
   int id = pick(false);
   if (id>=0 && id!=g.cur->id) { record_switch(id,false); plan_next_event(); switch_to(id); }
}

// the thread gives up the processor of its own accord (sleep, timed wait, yield): somebody else runs, if anybody can
void yield_point() {
   if (!g.active) return;
   g.ev++;
   if (g.ev >= g.stop_ev) slow_event();
   if (g.nrun_possible <= 1) return;
   if (g.pol==P_PCT) g.cur->prio = g.low_prio--;
   int id = -1;
   if (g.pol==P_LIST || g.pol==P_RAND) id = pick(false);
   if (id<0 || id==g.cur->id) id = next_runnable();
   if (id>=0 && id!=g.cur->id) { record_switch(id,false); plan_next_event(); switch_to(id); }
}

/* clocks */
static void vc_join(Th *a, const uint32_t *b) { for (int i=0;i<g.nth;i++) if (b[i]>a->vc[i]) a->vc[i]=b[i]; }
void vc_acquire(Th *t, Sync *s) { for (int i=0;i<MAXT;i++) if (s->vc[i]>t->vc[i]) t->vc[i]=s->vc[i]; }
void vc_release(Th *t, Sync *s) { for (int i=0;i<MAXT;i++) if (t->vc[i]>s->vc[i]) s->vc[i]=t->vc[i]; t->vc[t->id]++; }

static void thread_body(Th *t);
static void *pthread_entry(void *p) {
   Th *t = (Th*)p;
   fwait(&t->go);
   thread_body(t);
   return nullptr;
}
static void call_noexcept(void (*fn)(void*), void *arg) noexcept { fn(arg); }

static void thread_body(Th *t) {
   for (;;) {
      call_noexcept(t->fn, t->arg);
      // finished: tell whoever waits
      t->state = IDLE; g.nrun_possible--;
      Th *par = t->parent;
      vc_join(par, t->vc); t->vc[t->id]++;
      if (--*t->pending==0) wake(par);
      g.ev++;
      int id = pick(true);
      if (id<0) deadlock();
      record_switch(id,true);
      plan_next_event();
      g.cur = &g.th[id];
      fpost(&g.th[id].go);
      fwait(&t->go);   // next piece of work
   }
}
static Th *new_thread() {
   for (int i=1;i<g.nth;i++) if (g.th[i].state==IDLE) return &g.th[i];
   if (g.nth>=MAXT) { violation("limit","too many threads"); stop(); }
   Th *t = &g.th[g.nth];
   memset(t,0,sizeof *t);
   t->id = g.nth; t->state = IDLE; t->vc[t->id]=1;
   g.nth++;
   pthread_attr_t at; pthread_attr_init(&at);
   pthread_attr_setstack(&at, (void*)(STACK_BASE + uintptr_t(t->id)*STACK_SZ), STACK_SZ);
   if (g.stack_fill) memset((void*)(STACK_BASE + uintptr_t(t->id)*STACK_SZ + STACK_SZ - 65536), g.stack_fill, 65536-8192);
   if (pthread_create(&t->pt,&at,pthread_entry,t)) { fprintf(stderr,"pthread_create failed\n"); _exit(99); }
   pthread_attr_destroy(&at);
   return t;
}
// start fn on a simulated thread (does not run until scheduled)
Th *start_thread(void (*fn)(void*), void *arg, int *pending, Th *parent) {
   Th *t = new_thread();
   t->fn=fn; t->arg=arg; t->pending=pending; t->parent=parent;
   t->fsd=t->fs_base=0; t->task=nullptr; t->team=&g.team0; t->tnum=0; t->ws=nullptr; t->wsi=0; t->guard=nullptr; t->lb=t->le=0;
   vc_join(t, parent->vc);
   t->state = RUN; g.nrun_possible++;
   t->prio = (g.pol==P_PCT) ? int(sched_rand()%1000000) : 0;
   return t;
}
struct SpawnArg { void (*fn)(void*); void *arg; };
static SpawnArg spawn_args[MAXT]; static int n_spawn; static int spawn_pending;
static void spawn_body(void *p) { SpawnArg *a=(SpawnArg*)p; g.active = true; Team *t=new_team(); t->n=1; g.cur->team=t; a->fn(a->arg); g.active=true; t->used=false; }
int spawn(void (*fn)(void*), void *arg) {
   Quiet q;
   SpawnArg *a = &spawn_args[n_spawn++]; a->fn=fn; a->arg=arg;
   g.cur->vc[g.cur->id]++;
   spawn_pending++;
   g.par++;
   Th *t = start_thread(spawn_body, a, &spawn_pending, g.cur);
   g.cur->vc[g.cur->id]++;
   t->tnum = n_spawn;
   return t->id;
}
void join_all() {
   bool was = g.active; g.active = true;
   strong_point();
   while (spawn_pending>0) block("join");
   g.par -= n_spawn; n_spawn=0;
   g.active = was;
}

/* ---------------------------------------------------------------- shadow: races */
static inline Cell *cells(uintptr_t a) {
   if (a >= ARENA_BASE && a < REGION_END) return (Cell*)(SHADOW_BASE) + ((a-ARENA_BASE)>>3)*4;
   if (a >= g.glob_lo && a < g.glob_hi) return (Cell*)(GSHADOW_BASE) + ((a-g.glob_lo)>>3)*4;
   return nullptr;
}
static void race_report(uintptr_t a, const Cell &c, bool write, void *pc) {
   char where[96];
   describe(a, where, sizeof where);
   violation("race","%s by thread %d (pc %p) conflicts with %s by thread %u at %s",
      write?"write":"read", g.cur->tnum, pc, c.write?"write":"read", g.th[c.tid].tnum, where);
   stop();
}
static inline void check_granule(uintptr_t ga, uint8_t mask, bool write, bool atomic, void *pc) {
   Cell *s = cells(ga);
   if (!s) return;
   Th *t = g.cur; const uint32_t myclk = t->vc[t->id];
   int put=-1, dead=-1;
   for (int k=0;k<4;k++) {
      Cell &c = s[k];
      if (!c.mask) { if (put<0) put=k; continue; }
      if (c.tid==t->id) {
         if (c.clk==myclk && (c.mask&mask)==mask && c.write>=(write?1:0) && c.atomic==atomic) put=-2;
         else if ((c.mask & ~mask)==0 && (write || !c.write) && put!=-2) put=k;
         continue;
      }
      bool hb = c.clk <= t->vc[c.tid];
      if (hb) { if (dead<0 && ((c.mask&~mask)==0)) dead=k; continue; }
      if ((c.mask & mask) && (write || c.write) && !(atomic && c.atomic)) race_report(ga,c,write,pc);
   }
   if (put==-2) return;
   if (put<0) put = dead;
   if (put<0) { for (int k=0;k<4 && put<0;k++) if (s[k].tid!=t->id && s[k].clk<=t->vc[s[k].tid]) put=k; }
   if (put<0) put = int((ga>>3)&3);
   s[put].clk=myclk; s[put].tid=uint8_t(t->id); s[put].mask=mask; s[put].write=write; s[put].atomic=atomic;
}

void describe(uintptr_t a, char *b, size_t n) {
   if (a >= ARENA_BASE && a < ARENA_BASE+ARENA_SZ) {
      Hdr *h = find_block(a);
      if (h) snprintf(b,n,"heap block #%llu (%zu bytes)+%lld", (unsigned long long)h->seq, h->size,(long long)(a-h->user));
      else snprintf(b,n,"heap offset %llx",(unsigned long long)(a-ARENA_BASE));
   } else if (a>=STACK_BASE && a<REGION_END) {
      snprintf(b,n,"stack of sim thread %d", int((a-STACK_BASE)/STACK_SZ));
   } else if (a>=g.glob_lo && a<g.glob_hi) snprintf(b,n,"global %#llx",(unsigned long long)a);
   else snprintf(b,n,"other memory");
}

static void bad_access(uintptr_t a, size_t sz, bool write, void *pc) {
   char where[96]; describe(a, where, sizeof where);
   violation("bounds","%s of %zu bytes outside any live allocation, %s (pc %p)", write?"write":"read", sz, where, pc);
   stop();
}
static inline bool addressable(uintptr_t a, size_t sz) {
   // per granule: number of addressable leading bytes (0..8)
   const uint8_t *s = (const uint8_t*)ASHADOW_BASE;
   uintptr_t end = a+sz;
   for (uintptr_t ga=a&~uintptr_t(7); ga<end; ga+=8) {
      uintptr_t hi = end < ga+8 ? end : ga+8;
      if (hi-ga > s[(ga-ARENA_BASE)>>3]) return false;
   }
   return true;
}
bool buffer_ok(const void *p, size_t n) {
   uintptr_t a=(uintptr_t)p;
   if (a<ARENA_BASE || a+n>ARENA_BASE+ARENA_SZ) return true;
   return addressable(a,n);
}

void access_slow(uintptr_t a, size_t sz, bool write, bool atomic, void *pc) {
   if (g.mem && a-ARENA_BASE < ARENA_SZ && !addressable(a,sz)) bad_access(a,sz,write,pc);
   if (g.race && g.par) {
      uintptr_t end=a+sz;
      for (uintptr_t ga=a&~uintptr_t(7); ga<end; ga+=8) {
         unsigned lo = ga<a ? unsigned(a-ga) : 0, hi = end<ga+8 ? unsigned(end-ga) : 8;
         check_granule(ga, uint8_t(((1u<<hi)-1) & ~((1u<<lo)-1)), write, atomic, pc);
      }
   }
}
static inline void access(uintptr_t a, size_t sz, bool write, void *pc, bool atomic=false) {
   if (!g.active) return;
   if (++g.ev >= g.next_ev) slow_event();
   g.hash = (g.hash ^ (a - ARENA_BASE < REGION_END-ARENA_BASE ? a : 0) ^ (sz<<1) ^ (write?1:0))*0x9e3779b97f4a7c15ull;
   if (g.mem | (g.race && g.par)) access_slow(a,sz,write,atomic,pc);
}
void range(const void *p, size_t n, bool write) {
   if (!g.active || !n) return;
   // in two halves with a preemption point between them
   uintptr_t a=(uintptr_t)p; size_t h = n>=32 ? (n/2)&~size_t(7) : n;
   access(a,h,write,__builtin_return_address(0));
   if (n>h) { point(); access(a+h,n-h,write,__builtin_return_address(0)); }
}

/* ---------------------------------------------------------------- allocator */
enum { HDR_MAGIC = 0x51c0ffee };
Hdr *find_block(uintptr_t a) {
   uint64_t lo=0, hi=g.nblk;                  // blk[] is ordered by address
   while (lo<hi) { uint64_t m=(lo+hi)/2; if ((uintptr_t)g.blk[m]<=a) lo=m+1; else hi=m; }
   if (!lo) return nullptr;
   Hdr *h=g.blk[lo-1];
   return a<(uintptr_t)h+h->chunk ? h : nullptr;
}
static int class_of(size_t chunk) { // chunk is a multiple of CHUNK_ALIGN
   size_t k = chunk/CHUNK_ALIGN; if (k<=64) return int(k);
   int c=65; size_t s=128; while (s<k) { s*=2; c++; } return c;
}
static size_t class_size(int c) { if (c<=64) return size_t(c)*CHUNK_ALIGN; size_t s=128; for (int i=65;i<c;i++) s*=2; return s*CHUNK_ALIGN; }

static void poison(void *p, size_t n, uint64_t pat) {
   uint64_t *q=(uint64_t*)p; size_t k=n/8; for (size_t i=0;i<k;i++) q[i]=pat; memset((char*)p+k*8,(int)(pat&0xff),n-k*8);
}
/* Where an allocation comes from: a hash of the calls that lead to it (instrumented code only, so
 * the same in every process). */
enum { MAXSITE = 8192, SITEDEPTH = 5 };
static struct { uint64_t h, n; } sites[MAXSITE]; static unsigned n_sites; static uint16_t site_ix[2*MAXSITE];
extern "C" char __executable_start, etext;
static uint64_t alloc_site(bool simd) {
   const Th *t=g.cur; uint64_t h = simd ? 7 : 3; unsigned k=0;
   void *pc=g.alloc_pc; if ((char*)pc>=&__executable_start && (char*)pc<&etext) h=(h^(uintptr_t)pc)*0x9e3779b97f4a7c15ull;
   for (unsigned d=t->fsd; d>t->fs_base+1 && k<SITEDEPTH; d--,k++) { h=(h^(uintptr_t)t->fs[(d-1)&63])*0x9e3779b97f4a7c15ull; h^=h>>29; }
   h&=0x7fffffffffffffffull; return h ? h : 1;
}
static void site_count(uint64_t h) {
   unsigned k=unsigned(h>>20)%(2*MAXSITE);
   while (site_ix[k] && sites[site_ix[k]-1].h!=h) k=(k+1)%(2*MAXSITE);
   if (!site_ix[k]) { if (n_sites==MAXSITE-1) return; sites[n_sites].h=h; sites[n_sites].n=0; site_ix[k]=uint16_t(++n_sites); }
   sites[site_ix[k]-1].n++;
}
void site_report() { for (unsigned i=0;i<n_sites;i++) out("%llu:%llu\n",(unsigned long long)sites[i].h,(unsigned long long)sites[i].n); }
void *sim_alloc(size_t n, bool simd) {
   if (!g.brk) server_init();
   res->allocs++; if (simd) res->fftw_allocs++;
   if (g.active && g.fail_armed) {
      if (g.count_sites) site_count(alloc_site(simd));
      else if (g.fail_site && (g.fail_seen>=g.fail_nth || alloc_site(simd)==g.fail_site) && ++g.fail_seen>=g.fail_nth && g.fail_seen<g.fail_nth+g.fail_len) {
         res->alloc_fail++; mixhash(0xfa11+g.alloc_count); return nullptr; }
      else if (g.fail_p>0 && res->alloc_fail && double(env_rand()>>11)*(1.0/9007199254740992.0)<g.fail_p) { res->alloc_fail++; mixhash(0xfa11+g.alloc_count); return nullptr; }
   }
   if (g.active) g.alloc_count++;
   if (g.active && g.fail_at && g.alloc_count>=g.fail_at && g.fail_seen<g.fail_len) {
      bool hit = (g.fail_kind==0) || (g.fail_kind==1 && !simd) || (g.fail_kind==2 && simd);
      if (hit) { g.fail_seen++; res->alloc_fail++; mixhash(0xfa11+g.alloc_count); return nullptr; }
   }
   if (n > (size_t(1)<<30)) { res->alloc_fail++; return nullptr; }
   size_t off = simd ? OFF_SIMD : OFF_NEW;
   size_t need = off + n + 16 + (g.alloc_pol&1 ? CHUNK_ALIGN*(n%3) : 0);
   size_t chunk = (need+CHUNK_ALIGN-1)&~size_t(CHUNK_ALIGN-1);
   int c = class_of(chunk); chunk = class_size(c);
   Hdr *h=nullptr;
   if (g.fl_n[c] > g.quarantine) {           // reuse the oldest, or the newest, free chunk
      if (g.alloc_pol&2) { h=g.fl_tail[c]; }
      else h=g.fl_head[c];
      if (h->prev) h->prev->next=h->next; else g.fl_head[c]=h->next;
      if (h->next) h->next->prev=h->prev; else g.fl_tail[c]=h->prev;
      g.fl_n[c]--;
   } else {
      if (g.brk+chunk > ARENA_BASE+ARENA_SZ) { res->alloc_fail++; return nullptr; }
      h=(Hdr*)g.brk; g.brk+=chunk;
      memset(h,0,sizeof *h); h->chunk=chunk; h->cls=c;
      if (g.nblk>=MAXBLK) { violation("limit","too many blocks"); stop(); }
      h->idx=g.nblk; g.blk[g.nblk++]=h;
   }
   h->magic=HDR_MAGIC; h->size=n; h->user=(uintptr_t)h+off; h->live=1; h->simd=simd; h->seq=++g.seq;
   h->next=h->prev=nullptr;
   g.live_n++; g.live_b+=n;
   poison((void*)h->user, n, g.poison);
   uint8_t *s=(uint8_t*)ASHADOW_BASE + ((h->user-ARENA_BASE)>>3);
   memset(s, 8, n/8); if (n&7) s[n/8]=uint8_t(n&7);
   if (g.race) memset((Cell*)SHADOW_BASE + ((h->user-ARENA_BASE)>>3)*4, 0, ((n+7)/8)*4*sizeof(Cell));
   if (g.active) mixhash(h->user ^ n);
   return (void*)h->user;
}
void sim_free(void *p, int kind) {
   if (!p) return;
   uintptr_t a=(uintptr_t)p;
   if (a<ARENA_BASE || a>=ARENA_BASE+ARENA_SZ) {
      if (g.mem) { violation("free","release of memory that was never allocated"); stop(); }
      return;
   }
   Hdr *h=find_block(a);
   if (!h || h->user!=a || !h->live) {
      if (g.mem) { violation("free", "%s", (h && h->user==a) ? "block released twice" : "release of an address inside a block"); stop(); }
      return;
   }
   if (g.mem && kind>=0 && (kind==1)!=(h->simd==1)) { violation("free","block released by the wrong allocator"); stop(); }
   if (g.active && g.race && g.par) access_slow(a, h->size, true, false, __builtin_return_address(0));
   h->live=0; g.live_n--; g.live_b-=h->size;
   uint8_t *s=(uint8_t*)ASHADOW_BASE + ((h->user-ARENA_BASE)>>3);
   memset(s,0,(h->size+7)/8);
   poison(p, h->size, g.poison_free);
   int c=h->cls;
   h->next=nullptr; h->prev=g.fl_tail[c]; if (g.fl_tail[c]) g.fl_tail[c]->next=h; else g.fl_head[c]=h; g.fl_tail[c]=h; g.fl_n[c]++;
}
size_t buffer_len(const void *p) {
   uintptr_t a=(uintptr_t)p;
   if (a<ARENA_BASE || a>=ARENA_BASE+ARENA_SZ) return SIZE_MAX;
   Hdr *h=find_block(a); if (!h||!h->live||a<h->user) return 0;
   return h->user+h->size-a;
}
uint64_t live_blocks() { return g.live_n; }
uint64_t live_bytes() { return g.live_b; }
uint64_t alloc_seq() { return g.seq; }
void leak_report(uint64_t from, char *b, size_t n) {
   size_t k=0; b[0]=0; int cnt=0;
   for (uint64_t i=0;i<g.nblk && cnt<4;i++) { Hdr *h=g.blk[i]; if (h->live && h->seq>from) {
      k+=snprintf(b+k,n-k," #%llu(%zu bytes)",(unsigned long long)h->seq,h->size); cnt++; if (k+40>n) break; } }
}

/* Blocks allocated after `from` that nothing points to any more: conservative marking from globals
 * and thread-local storage (so caches a program keeps on purpose are not leaks). */
static uint8_t *marks; static uint32_t *mstack; static uint64_t mtop;
static void mark_range(uintptr_t lo, uintptr_t hi) {
   lo=(lo+7)&~uintptr_t(7);
   for (uintptr_t a=lo; a+8<=hi; a+=8) {
      uintptr_t v=*(uintptr_t*)a;
      if (v<ARENA_BASE || v>=g.brk) continue;
      Hdr *h=find_block(v);
      if (!h || !h->live || v<h->user || v>h->user+h->size || marks[h->idx]) continue;
      marks[h->idx]=1; mstack[mtop++]=uint32_t(h->idx);
   }
}
void reach_leaks(uint64_t from, char *b, size_t n, uint64_t *cnt) {
   if (!marks) {
      marks=(uint8_t*)mmap(nullptr,MAXBLK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
      mstack=(uint32_t*)mmap(nullptr,MAXBLK*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   }
   *cnt=0; b[0]=0;
   bool any=false; for (uint64_t i=0;i<g.nblk && !any;i++) any = g.blk[i]->live && g.blk[i]->seq>from;
   if (!any) return;
   memset(marks,0,g.nblk); mtop=0;
   uintptr_t glo=g.glob_lo, ghi=g.glob_hi, r0=(uintptr_t)&g, r1=r0+sizeof g;     // not the runtime's own lists
   mark_range(glo,r0); mark_range(r1,ghi);
   for (int i=0;i<g.nth;i++) {
      uintptr_t top = i ? STACK_BASE+uintptr_t(i+1)*STACK_SZ : MAINSTACK_BASE+MAINSTACK_SZ, tp=(uintptr_t)g.th[i].pt;
      if (tp>top || tp<top-65536) continue;
      mark_range(tp-1536,top);
   }
   while (mtop) { Hdr *h=g.blk[mstack[--mtop]]; mark_range(h->user,h->user+h->size); }
   size_t k=0;
   for (uint64_t i=0;i<g.nblk;i++) { Hdr *h=g.blk[i]; if (h->live && h->seq>from && !marks[i]) { if (++*cnt<=4 && k+48<n) k+=snprintf(b+k,n-k," #%llu(%zu bytes)",(unsigned long long)h->seq,h->size); } }
}

/* ---------------------------------------------------------------- setup */
extern "C" char __data_start, _end;
void server_init() {
   auto map=[](uintptr_t at, size_t n) {
      void *p = mmap((void*)at, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
      if (p!=(void*)at) { fprintf(stderr,"cannot reserve %zu bytes at %lx: %s\n", n, (unsigned long)at, strerror(errno)); _exit(98); }
   };
   map(ARENA_BASE, REGION_END-ARENA_BASE);
   for (uintptr_t i=0;i<=MAXT;i++) mprotect((void*)(i<MAXT ? STACK_BASE+i*STACK_SZ : MAINSTACK_BASE), STACK_GUARD, PROT_NONE);   // running off a stack faults
   map(SHADOW_BASE, ((REGION_END-ARENA_BASE)/8)*4*sizeof(Cell));
   map(ASHADOW_BASE, ARENA_SZ/8);
   memset((void*)&g,0,sizeof g);
   g.team0.used=true; g.team0.n=1;
   g.glob_lo=(uintptr_t)&__data_start & ~uintptr_t(7); g.glob_hi=((uintptr_t)&_end+7)&~uintptr_t(7);
   map(GSHADOW_BASE, ((g.glob_hi-g.glob_lo)/8)*4*sizeof(Cell)+4096);
   g.brk=ARENA_BASE+CHUNK_ALIGN;
   g.blk=(Hdr**)mmap(nullptr, sizeof(Hdr*)*MAXBLK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   g.poison=0; g.poison_free=0; g.next_ev=UINT64_MAX; g.stop_ev=UINT64_MAX; g.stall=-1; g.quarantine=64;
   static Result boot; if (!res) res=&boot; plan.text="";
   g.th[0].id=0; g.th[0].state=RUN; g.th[0].vc[0]=1; g.th[0].team=&g.team0; g.nth=1; g.cur=&g.th[0]; g.nrun_possible=1;
}
static const uint64_t poisons[] = { 0, 0xffffffffffffffffull, 0x7ff8dead0000beefull, 0x7fefffffffffffffull,
                                    0x3ff0000000000000ull, 0x4059000000000000ull, 0xc1e0000000000001ull, 0x0101010101010101ull };
void child_init(Result *r, const char *text) {
   res=r; plan.text=text;
   uint64_t seed=(uint64_t)plan.i("seed",1);
   g.rng_sched=(uint64_t)plan.i("sseed",(long long)seed)*0x9e3779b97f4a7c15ull+1;
   g.rng_env  =(uint64_t)plan.i("eseed",(long long)seed)*0xbf58476d1ce4e5b9ull+2;
   g.rng_wl   =(uint64_t)plan.i("wseed",(long long)seed)*0x94d049bb133111ebull+3;
   g.race=plan.i("race",0); g.mem=plan.i("mem",0);
   g.nthreads=int(plan.i("threads",1)); g.nthreads2=int(plan.i("threads2",g.nthreads)); g.max_levels=int(plan.i("levels",1));
   g.p_short=plan.d("pshort",0);
   g.stall=int(plan.i("stall",-1));
   char b[32]; const char *pol=plan.get("pol",b,sizeof b);
   g.pol=P_SERIAL;
   if (pol) { if(!strcmp(pol,"rand")) g.pol=P_RAND; else if(!strcmp(pol,"pct")) g.pol=P_PCT; else if(!strcmp(pol,"rr")) g.pol=P_RR; else if(!strcmp(pol,"list")) g.pol=P_LIST; }
   g.gap=plan.d("gap",200);
   g.budget=(uint64_t)plan.i("budget",600000000ll);
   g.crash_ev=(uint64_t)plan.i("crash_ev",0);
   g.stop_ev = g.crash_ev && g.crash_ev<g.budget ? g.crash_ev : g.budget;
   if (g.pol==P_PCT) {
      uint64_t span=(uint64_t)plan.i("span",200000); int d=int(plan.i("depth",3)); if (d>PCTMAX) d=PCTMAX;
      for (int i=0;i<d;i++) g.pct_pt[i]=1+sched_rand()%span;
      for (int i=0;i<d;i++) for (int j=i+1;j<d;j++) if (g.pct_pt[j]<g.pct_pt[i]) { uint64_t t=g.pct_pt[i]; g.pct_pt[i]=g.pct_pt[j]; g.pct_pt[j]=t; }
      g.pct_n=d; g.low_prio=-1;
   }
   if (g.pol==P_LIST) {   // sw=ev:tid,ev:tid,...
      size_t len=strlen(text)+1; char *buf=(char*)malloc(len);
      if (plan.get("sw",buf,len)) {
         char *p=buf; size_t cap=16; g.list=(decltype(g.list))malloc(cap*sizeof *g.list);
         while (*p) { char *e; uint64_t ev=strtoull(p,&e,10); int t=-1; if (*e==':') t=(int)strtol(e+1,&e,10);
            if (g.list_n==cap) { cap*=2; g.list=(decltype(g.list))realloc(g.list,cap*sizeof *g.list); }
            g.list[g.list_n].ev=ev; g.list[g.list_n].tid=t; g.list_n++;
            p=e; if (*p==',') p++; else break; }
      }
      free(buf);
   }
   g.alloc_pol=unsigned(plan.i("apol",0)); g.quarantine=unsigned(plan.i("quar",32));
   unsigned pi=unsigned(plan.i("poison",0)); g.poison = pi<8 ? poisons[pi] : env_rand();
   g.poison_free = plan.has("poisonf") ? poisons[plan.i("poisonf",0)&7] : 0x7ff8000000f4eedull;
   g.stack_fill=int(plan.i("stackfill",0));
   g.fail_kind=int(plan.i("fail_kind",0));
   g.fail_site=(uint64_t)plan.i("fail_site",0); g.fail_nth=(uint64_t)plan.i("fail_nth",1); g.fail_p=plan.d("fail_p",0); g.count_sites=int(plan.i("sites",0));
   g.fail_at_rel=(uint64_t)plan.i("fail_at",0); g.fail_len=(uint64_t)plan.i("fail_len",1); if (!g.fail_len) g.fail_len=UINT64_MAX/2;
   g.clock_ns=1500000000ull*1000000000ull + env_rand()%1000000000000000ull;
   g.planner=int(plan.i("planner",0));
   io_init();
   plan_next_event();
}
struct MainArg { void (*fn)(void*); void *arg; int done; };
static void *main_entry(void *p) {
   MainArg *m=(MainArg*)p;
   call_noexcept(m->fn, m->arg);
   sync_stats();
   __atomic_store_n(&m->done,1,__ATOMIC_RELEASE);
   syscall(SYS_futex,&m->done,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0);
   return nullptr;
}
void run_main(void (*fn)(void*), void *arg) {
   MainArg m{fn,arg,0};
   pthread_attr_t at; pthread_attr_init(&at);
   pthread_attr_setstack(&at,(void*)(MAINSTACK_BASE), MAINSTACK_SZ);
   if (pthread_create(&g.th[0].pt,&at,main_entry,&m)) { fprintf(stderr,"pthread_create failed\n"); _exit(99); }
   while (!__atomic_load_n(&m.done,__ATOMIC_ACQUIRE)) syscall(SYS_futex,&m.done,FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0);
}
void arm_alloc_faults() { g.fail_armed=true; if (g.fail_at_rel) g.fail_at = g.alloc_count + g.fail_at_rel; }
} // namespace rt

using namespace rt;
#define PC __builtin_return_address(0)
/* ---------------------------------------------------------------- instrumentation ABI */
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Th *t=g.cur; if (t) t->fs[t->fsd++&63]=pc; }
void __tsan_func_exit() { Th *t=g.cur; if (t && t->fsd) t->fsd--; }
#define RW(n) void __tsan_read##n(void *a){ access((uintptr_t)a,n,false,PC);} void __tsan_write##n(void *a){ access((uintptr_t)a,n,true,PC);} \
   void __tsan_unaligned_read##n(void *a){ access((uintptr_t)a,n,false,PC);} void __tsan_unaligned_write##n(void *a){ access((uintptr_t)a,n,true,PC);} \
   void __tsan_volatile_read##n(void *a){ access((uintptr_t)a,n,false,PC);} void __tsan_volatile_write##n(void *a){ access((uintptr_t)a,n,true,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n){ if(n) access((uintptr_t)a,n,false,PC);}
void __tsan_write_range(void *a, size_t n){ if(n) access((uintptr_t)a,n,true,PC);}
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a,8,true,PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a,8,false,PC); }

void *__sim_memcpy(void *d, const void *s, size_t n) { if (n) { range(s,n,false); range(d,n,true);} return memcpy(d,s,n); }
void *__sim_memmove(void *d, const void *s, size_t n) { if (n) { range(s,n,false); range(d,n,true);} return memmove(d,s,n); }
void *__sim_memset(void *d, int c, size_t n) { if (n) range(d,n,true); return memset(d,c,n); }
}
/* atomics: sequentially consistent, each a synchronisation on its address */
namespace rt {
static Sync g_sync[509];
Sync *sync_of(const void *p) { return &g_sync[((uintptr_t)p>>3)%509]; }
static void atomic_op(const volatile void *a, size_t n, bool w, void *pc) {
   if (!g.active) return;
   res->sync_ops++;
   strong_point();
   access((uintptr_t)a,n,w,pc,true);
   Sync *s=sync_of((const void*)a);
   vc_acquire(g.cur,s); if (w) vc_release(g.cur,s);
}
}
extern "C" {
#define AT(bits,T) \
T __tsan_atomic##bits##_load(const volatile T *a,int){ atomic_op(a,sizeof(T),false,PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); *a=v; } \
T __tsan_atomic##bits##_exchange(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(o+v); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(o-v); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(o&v); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(o|v); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(o^v); return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a,T v,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; *a=T(~(o&v)); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a,T *e,T v,int,int){ atomic_op(a,sizeof(T),true,PC); if (*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a,T *e,T v,int,int){ atomic_op(a,sizeof(T),true,PC); if (*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a,T e,T v,int,int){ atomic_op(a,sizeof(T),true,PC); T o=*a; if (o==e) *a=v; return o; }
typedef unsigned char at8; typedef unsigned short at16; typedef unsigned int at32; typedef unsigned long at64;
AT(8,at8) AT(16,at16) AT(32,at32) AT(64,at64)
void __tsan_atomic_thread_fence(int) { if (g.active) { res->sync_ops++; strong_point(); } }
void __tsan_atomic_signal_fence(int) {}
}

/* ---------------------------------------------------------------- heap seam */
static void *op_new(size_t n, void *pc) {
   if (g.active) strong_alloc_point();
   g.alloc_pc=pc;
   void *p=sim_alloc(n,false);
   for (int k=0; !p && k<1000; k++) {
      std::new_handler h=std::get_new_handler();
      if (!h) throw std::bad_alloc();
      h();
      g.alloc_pc=pc; p=sim_alloc(n,false);
   }
   if (!p) { violation("no-progress","the new-handler never makes memory available"); stop(); }
   return p;
}
namespace rt { void strong_alloc_point() { point(); } }
void *operator new(size_t n) { return op_new(n,PC); }
void *operator new[](size_t n) { return op_new(n,PC); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { try { return op_new(n,PC); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { try { return op_new(n,PC); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (g.active) point(); sim_free(p,0); }
void operator delete[](void *p) noexcept { if (g.active) point(); sim_free(p,0); }
void operator delete(void *p, size_t) noexcept { if (g.active) point(); sim_free(p,0); }
void operator delete[](void *p, size_t) noexcept { if (g.active) point(); sim_free(p,0); }
void operator delete(void *p, const std::nothrow_t&) noexcept { sim_free(p,0); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { sim_free(p,0); }
extern "C" {
void *__sim_malloc(size_t n) { if (g.active) point(); g.alloc_pc=PC; return sim_alloc(n,false); }
void *__sim_calloc(size_t a, size_t b) { if (g.active) point(); g.alloc_pc=PC; void *p=sim_alloc(a*b,false); if (p) memset(p,0,a*b); return p; }
void *__sim_realloc(void *p, size_t n) { if (!p) return __sim_malloc(n); g.alloc_pc=PC; void *q=sim_alloc(n,false); if (!q) return nullptr; size_t o=buffer_len(p); memcpy(q,p,o<n?o:n); sim_free(p,-1); return q; }
void __sim_free(void *p) { if (g.active) point(); sim_free(p,-1); }
void *__sim_aligned_alloc(size_t, size_t n) { if (g.active) point(); g.alloc_pc=PC; return sim_alloc(n,true); }
int __sim_posix_memalign(void **q, size_t, size_t n) { if (g.active) point(); g.alloc_pc=PC; void *p=sim_alloc(n,true); if (!p) return ENOMEM; *q=p; return 0; }
}
