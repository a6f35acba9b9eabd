// The GOMP ABI and the omp_* API, on simulated threads.  Team sizes, who runs and in which order
// come from the plan.
#include "rt_int.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>

using namespace rt;

namespace rt {
enum { MAXTEAM = MAXT };
static Team pool[MAXTEAM];
Team *new_team() {
   for (int i=0;i<MAXTEAM;i++) if (!pool[i].used) { Team *t=&pool[i]; memset((void*)t,0,sizeof *t); t->used=true; return t; }
   violation("limit","too many teams"); stop();
}
static unsigned icv_threads(Team *t) {
   return t->active_level==0 ? unsigned(g.nthreads) : unsigned(g.nthreads2);
}
static void barrier(Team *t);
static void drain(Team *t);
static void leave_task(Task *k) { if (--k->refs==0) { Task *p=k->parent; free(k->mem); free(k); if (p) leave_task(p); } }
static void region_end(Team *t) {
   if (t->n>1) { if (t->end_bar) barrier(t); else drain(t); }
   if (g.cur->task) { leave_task(g.cur->task); g.cur->task=nullptr; }
}
static void region_body(void *p) { Team *t=(Team*)p; t->fn(t->data); region_end(t); }

static void run_region(void (*fn)(void*), void *data, unsigned nreq, const WS *pre) {
   bool was = g.active;
   Th *me = g.cur;
   Team *par = me->team; int ptnum = me->tnum; WS *pws = me->ws; uint64_t pwsi = me->wsi;
   long plb=me->lb, ple=me->le; unsigned long long pulb=me->ulb, pule=me->ule;
   unsigned n = nreq ? nreq : icv_threads(par);
   if (n<1) n=1;
   if (par->active_level >= g.max_levels) n=1;
   if (!was) n=1;                                   // oracle code: never parallel
   if (n>1 && g.p_short>0) {                        // fewer threads than asked for
      double u=double(env_rand()>>11)*(1.0/9007199254740992.0);
      if (u<g.p_short) { n = 1+unsigned(env_rand()%n); res->short_teams++; }
   }
   int idle=0; for (int i=1;i<g.nth;i++) idle += g.th[i].state==IDLE;
   int room = idle + (MAXT-g.nth);
   if (int(n)-1 > room) n = unsigned(room)+1;
   Team *t = new_team();
   t->n=int(n); t->parent=par; t->parent_tnum=ptnum; t->level=par->level+1; t->active_level=par->active_level+(n>1);
   t->fn=fn; t->data=data;
   if (pre) { t->pre=*pre; t->has_pre=true; }
   if (was) { res->regions++; g.cur_region=(long)res->regions; }
   t->region = g.cur_region;
   Task *ptask=me->task;
   me->team=t; me->tnum=0; me->wsi=0; me->task=nullptr; me->ws = pre ? &t->pre : nullptr;
   t->end_bar=g.tasks_seen;
   if (n>1) {
      res->team_threads += n;
      g.par++;
      t->pending=int(n)-1;
      me->vc[me->id]++;
      for (unsigned i=1;i<n;i++) {
         Th *c = start_thread(region_body, t, &t->pending, me);
         c->team=t; c->tnum=int(i); c->wsi=0; c->ws = pre ? &t->pre : nullptr;
      }
      me->vc[me->id]++;
      strong_point();
   }
   const unsigned base0=g.cur->fs_base; g.cur->fs_base=g.cur->fsd;
   fn(data);
   region_end(t);
   me->task=ptask;
   g.cur->fs_base=base0;
   if (n>1) {
      g.ev++;
      while (t->pending>0) block("end of parallel region");
      g.par--;
      strong_point();
   }
   me->team=par; me->tnum=ptnum; me->ws=pws; me->wsi=pwsi; me->lb=plb; me->le=ple; me->ulb=pulb; me->ule=pule;
   t->used=false;
   g.cur_region = par->region;
   if (g.active!=was) g.active=was;
}

/* explicit tasks: one that is deferred runs on any thread of the team that reaches a barrier, or on
 * one that waits for it */
static Task *new_task(Task *parent) {
   Task *k=(Task*)calloc(1,sizeof(Task)); k->refs=1; k->parent=parent; if (parent) parent->refs++;
   return k;
}
static Task *cur_task() { Th *me=g.cur; if (!me->task) me->task=new_task(nullptr); return me->task; }
static Task *take(Team *t, Task *under) {      // a waiting task, of the descendants of `under` only
   int n=0;
   for (Task *k=t->tasks;k;k=k->next) { bool in=!under; for (Task *p=k->parent;p && !in;p=p->parent) in=p==under; n+=in; }
   if (!n) return nullptr;
   int want=n>1?int(env_rand()%unsigned(n)):0;
   for (Task **q=&t->tasks;*q;q=&(*q)->next) {
      Task *k=*q; bool in=!under; for (Task *p=k->parent;p && !in;p=p->parent) in=p==under;
      if (in && !want--) { *q=k->next; t->ntasks--; return k; }
   }
   return nullptr;
}
static void run_task(Task *k) {
   Th *me=g.cur; Team *t=me->team; Task *was=me->task; WS *ws=me->ws;
   me->task=k; me->ws=nullptr;
   strong_point();
   vc_acquire(me,&k->create);
   k->fn(k->data);
   strong_point();
   vc_release(me,&k->parent->kids); vc_release(me,&t->bar_sync);
   if (k->group_of) { vc_release(me,&k->group_of->kids); k->group_of->group_n--; wake_all(k->group_of); leave_task(k->group_of); }
   k->parent->children--; t->outstanding--;
   wake_all(k->parent); if (!t->outstanding) wake_all(&t->bar_count);
   me->task=was; me->ws=ws;
   leave_task(k);
}
static void drain(Team *t) { while (t->ntasks) run_task(take(t,nullptr)); }
static void wait_children(Task *c, int Task::*left, const char *why) {
   strong_point();
   while (c->*left>0) { if (Task *k=take(g.cur->team,c)) run_task(k); else wait_on(c,why); }
   vc_acquire(g.cur,&c->kids);
}
static void make_task(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long sz, long al, bool now, unsigned flags, const long *range) {
   Th *me=g.cur; Team *t=me->team; Task *c=cur_task();
   Task *k=new_task(c); k->final_=c->final_||(flags&2);
   if (al<16) al=16;
   k->mem=malloc(size_t(sz+al)+16); k->data=(void*)(((uintptr_t)k->mem+size_t(al)-1)&~(uintptr_t)(al-1)); k->fn=fn;
   if (cpy) cpy(k->data,data); else memcpy(k->data,data,size_t(sz));
   if (range) memcpy(k->data,range,2*sizeof(long));
   if (now || k->final_ || !g.active || t->n==1 || env_rand()%8==0) {
      point(); Task *was=me->task; WS *ws=me->ws; me->task=k; me->ws=nullptr; k->fn(k->data); me->task=was; me->ws=ws;
      leave_task(k); return;
   }
   g.tasks_seen=true; res->sync_ops++;
   vc_release(me,&k->create);
   for (Task *p=c;p;p=p->parent) if (p->group_depth) { k->group_of=p; p->group_n++; p->refs++; break; }
   c->children++; t->outstanding++; k->next=t->tasks; t->tasks=k; t->ntasks++;
   wake_all(&t->bar_count);
   strong_point();
}

static void barrier(Team *t) {
   Th *me=g.cur;
   if (!g.active || t->n==1) return;
   res->sync_ops++;
   strong_point();
   vc_release(me,&t->bar_sync);
   uint32_t gen=t->bar_gen;
   ++t->bar_count;
   while (t->bar_gen==gen) {
      if (t->bar_count==uint32_t(t->n) && !t->outstanding) { t->bar_count=0; t->bar_gen++; wake_all(&t->bar_count); break; }
      if (t->ntasks) run_task(take(t,nullptr)); else wait_on(&t->bar_count,"barrier");
   }
   vc_acquire(me,&t->bar_sync);
   strong_point();
}
static WS *enter_ws() {       // next work-sharing construct of this thread's team
   Th *me=g.cur; Team *t=me->team;
   uint64_t no=++me->wsi; WS *w=&t->ws[no%NWS];
   strong_point();
   while (w->serial!=no) {
      if (w->serial==0 || w->users>=t->n) { memset((void*)w,0,sizeof *w); w->serial=no; break; }
      wait_on(w,"work-sharing slot");
   }
   me->ws=w;
   return w;
}
static void leave_ws() {
   Th *me=g.cur; WS *w=me->ws; if (!w) return;
   me->ws=nullptr;
   if (w==&me->team->pre) return;
   if (++w->users>=me->team->n) wake_all(w);
}

/* loops */
enum { S_STATIC, S_DYNAMIC, S_GUIDED };
static void loop_set(WS *w, long s, long e, long inc, long chunk, int sched) {
   if (w->init) return;
   w->init=true; w->ull=false; w->first=s; w->next=s; w->end=e; w->incr=inc; w->chunk=chunk; w->sched=sched;
   if ((inc>0 && s>e) || (inc<0 && s<e)) w->end=s;
}
static bool loop_next(long *is, long *ie) {
   Th *me=g.cur; WS *w=me->ws; Team *t=me->team;
   long left = w->incr>0 ? (w->end-w->next+w->incr-1)/w->incr : (w->next-w->end-w->incr-1)/(-w->incr);
   if (w->sched==S_STATIC) {
      // me->lb counts the chunks this thread has taken
      long total = w->incr>0 ? (w->end-w->next+w->incr-1)/w->incr : (w->next-w->end-w->incr-1)/(-w->incr);
      if (total<=0) return false;
      if (w->chunk<=0) {
         if (me->lb++) return false;
         long q=total/t->n, r=total%t->n; long b,c;
         if (me->tnum<r) { c=q+1; b=me->tnum*c; } else { c=q; b=me->tnum*q+r; }
         if (c<=0) return false;
         *is=w->next+b*w->incr; *ie=w->next+(b+c)*w->incr; return true;
      }
      long k=me->tnum+t->n*(me->lb++); long b=k*w->chunk;
      if (b>=total) return false;
      long e=b+w->chunk; if (e>total) e=total;
      *is=w->next+b*w->incr; *ie=w->next+e*w->incr; return true;
   }
   strong_point();
   left = w->incr>0 ? (w->end-w->next+w->incr-1)/w->incr : (w->next-w->end-w->incr-1)/(-w->incr);
   if (left<=0) return false;
   long c = w->chunk>0?w->chunk:1;
   if (w->sched==S_GUIDED) { long q=(left+t->n-1)/t->n; if (q>c) c=q; }
   if (c>left) c=left;
   *is=w->next; w->next+=c*w->incr; *ie=w->next;
   return true;
}
static void uloop_set(WS *w, bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, int sched) {
   if (w->init) return;
   w->init=true; w->ull=true; w->up=up; w->first=(long)s; w->unext=s; w->uend=e; w->uincr=inc; w->chunk=(long)chunk; w->sched=sched;
   if ((up && s>e) || (!up && s<e)) w->uend=s;
}
static unsigned long long utotal(WS *w) {
   if (w->up) return (w->uend-w->unext+w->uincr-1)/w->uincr;
   unsigned long long d=0-w->uincr; return (w->unext-w->uend+d-1)/d;
}
static bool uloop_next(unsigned long long *is, unsigned long long *ie) {
   Th *me=g.cur; WS *w=me->ws; unsigned long long n=(unsigned long long)me->team->n, tn=(unsigned long long)me->tnum;
   if (w->sched==S_STATIC) {
      unsigned long long total=utotal(w); if (!total) return false;
      unsigned long long ch=(unsigned long long)w->chunk;
      if (!ch) {
         if (me->lb++) return false;
         unsigned long long q=total/n,r=total%n,b,c;
         if (tn<r) { c=q+1; b=tn*c; } else { c=q; b=tn*q+r; }
         if (!c) return false;
         *is=w->unext+b*w->uincr; *ie=w->unext+(b+c)*w->uincr; return true;
      }
      unsigned long long b=(tn+n*(unsigned long long)(me->lb++))*ch; if (b>=total) return false;
      unsigned long long e=b+ch; if (e>total) e=total;
      *is=w->unext+b*w->uincr; *ie=w->unext+e*w->uincr; return true;
   }
   strong_point();
   unsigned long long left=utotal(w); if (!left) return false;
   unsigned long long c=w->chunk>0?(unsigned long long)w->chunk:1;
   if (w->sched==S_GUIDED) { unsigned long long q=(left+n-1)/n; if (q>c) c=q; }
   if (c>left) c=left;
   *is=w->unext; w->unext+=c*w->uincr; *ie=w->unext;
   return true;
}

struct Lock { void *key; bool held; int owner; int depth; Sync sync; };
static Lock locks[256]; static int nlocks;
static Lock *lock_of(void *key) {
   for (int i=0;i<nlocks;i++) if (locks[i].key==key) return &locks[i];
   if (nlocks==256) { violation("limit","too many locks"); stop(); }
   locks[nlocks].key=key; return &locks[nlocks++];
}
static void lock(Lock *l, const char *why, bool rec=false) {
   if (!g.active) return;
   res->sync_ops++;
   strong_point();
   if (rec && l->held && l->owner==g.cur->id) { l->depth++; return; }
   while (l->held) wait_on(l,why);
   l->held=true; l->owner=g.cur->id; l->depth=1;
   vc_acquire(g.cur,&l->sync);
}
static bool trylock(Lock *l) {
   if (!g.active) return true;
   res->sync_ops++; strong_point();
   if (l->held) return false;
   l->held=true; l->owner=g.cur->id; l->depth=1; vc_acquire(g.cur,&l->sync); return true;
}
static void unlock(Lock *l) {
   if (!g.active) return;
   if (l->depth>1) { l->depth--; return; }
   vc_release(g.cur,&l->sync);
   l->held=false; l->depth=0; wake_all(l);
   strong_point();
}
void mutex_release(void *m) {
   Lock *l=lock_of(m);
   if (!g.active) return;
   vc_release(g.cur,&l->sync); l->held=false; l->depth=0; wake_all(l);
}
static char k_crit, k_atomic;
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void *data, unsigned n, unsigned) { run_region(fn,data,n,nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void *data, unsigned n, unsigned) { run_region(fn,data,n,nullptr); return n?n:1; }
void GOMP_parallel_sections(void (*fn)(void*), void *data, unsigned n, unsigned count, unsigned) {
   WS w; memset((void*)&w,0,sizeof w); w.init=true; w.sec_next=1; w.sec_n=int(count); run_region(fn,data,n,&w); }
unsigned GOMP_sections_next() { strong_point(); WS *w=g.cur->ws; return w->sec_next<=w->sec_n ? unsigned(w->sec_next++) : 0; }
unsigned GOMP_sections_start(unsigned count) { WS *w=enter_ws(); if (!w->init) { w->init=true; w->sec_next=1; w->sec_n=int(count); } return GOMP_sections_next(); }
void GOMP_sections_end_nowait() { leave_ws(); }
void GOMP_sections_end() { Team *t=g.cur->team; leave_ws(); barrier(t); }
void GOMP_barrier() { barrier(g.cur->team); }
bool GOMP_single_start() { WS *w=enter_ws(); bool first=!w->taken; w->taken=true; leave_ws(); return first; }
void *GOMP_single_copy_start() {
   WS *w=enter_ws();
   if (!w->taken) { w->taken=true; return nullptr; }
   while (!w->copy_ready) wait_on(&w->copy,"single copyprivate");
   vc_acquire(g.cur,&w->sync);
   void *c=w->copy; leave_ws(); return c;
}
void GOMP_single_copy_end(void *d) { WS *w=g.cur->ws; w->copy=d; w->copy_ready=true; vc_release(g.cur,&w->sync); wake_all(&w->copy); leave_ws(); }
void GOMP_critical_start() { lock(lock_of(&k_crit),"critical"); }
void GOMP_critical_end() { unlock(lock_of(&k_crit)); }
void GOMP_critical_name_start(void **p) { lock(lock_of(p),"critical"); }
void GOMP_critical_name_end(void **p) { unlock(lock_of(p)); }
void GOMP_atomic_start() { lock(lock_of(&k_atomic),"atomic"); }
void GOMP_atomic_end() { unlock(lock_of(&k_atomic)); }
bool GOMP_cancel(int,bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(g.cur->team); return false; }
bool GOMP_loop_end_cancel() { Team *t=g.cur->team; leave_ws(); barrier(t); return false; }
bool GOMP_sections_end_cancel() { Team *t=g.cur->team; leave_ws(); barrier(t); return false; }
void GOMP_task(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long sz, long al, bool cond, unsigned flags, void**, int, void*) {
   make_task(fn,data,cpy,sz,al,!cond||(flags&8),flags,nullptr);     // tasks with dependences run in program order
}
void GOMP_taskwait() { if (!g.active || !g.cur->task) { point(); return; } wait_children(g.cur->task,&Task::children,"taskwait"); }
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { strong_point(); }
void GOMP_taskgroup_start() { if (g.active) cur_task()->group_depth++; }
void GOMP_taskgroup_end() {
   if (!g.active || !g.cur->task) { point(); return; }
   Task *c=g.cur->task; wait_children(c,&Task::group_n,"end of taskgroup"); if (c->group_depth) c->group_depth--;
}
static void taskloop(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long sz, long al, unsigned flags, unsigned long num, unsigned long n, long start, long step) {
   if (!n) return;
   unsigned long tasks = !num ? (unsigned long)g.cur->team->n*2 : (flags&512) ? n/num : num;
   if (tasks<1) tasks=1;
   if (tasks>n) tasks=n;
   if (!(flags&2048)) GOMP_taskgroup_start();
   for (unsigned long k=0;k<tasks;k++) {
      long r[2]={start+long(n*k/tasks)*step, start+long(n*(k+1)/tasks)*step};
      make_task(fn,data,cpy,sz,al,!(flags&1024),flags,r);
   }
   if (!(flags&2048)) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long sz, long al, unsigned flags, unsigned long num, int, long start, long end, long step) {
   long n = step>0 ? (end>start?(end-start+step-1)/step:0) : (start>end?(start-end-step-1)/-step:0);
   taskloop(fn,data,cpy,sz,al,flags,num,(unsigned long)n,start,step);
}
void GOMP_taskloop_ull(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long sz, long al, unsigned flags, unsigned long num, int, unsigned long start, unsigned long end, unsigned long step) {
   unsigned long n = (flags&256) ? (end>start?(end-start+step-1)/step:0) : (start>end?(start-end-step-1)/-step:0);
   taskloop(fn,data,cpy,sz,al,flags,num,n,(long)start,(long)step);
}

#define LOOPS(name,S) \
bool GOMP_loop_##name##_start(long s,long e,long i,long c,long *is,long *ie) { WS *w=enter_ws(); loop_set(w,s,e,i,c,S); g.cur->lb=0; return loop_next(is,ie); } \
bool GOMP_loop_##name##_next(long *is,long *ie) { return loop_next(is,ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,long c,unsigned) { WS w; memset((void*)&w,0,sizeof w); loop_set(&w,s,e,i,c,S); long lb=g.cur->lb; g.cur->lb=0; run_region(fn,d,n,&w); g.cur->lb=lb; } \
bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long *is,unsigned long long *ie) { WS *w=enter_ws(); uloop_set(w,up,s,e,i,c,S); g.cur->lb=0; return uloop_next(is,ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *is,unsigned long long *ie) { return uloop_next(is,ie); }
LOOPS(static,S_STATIC) LOOPS(dynamic,S_DYNAMIC) LOOPS(guided,S_GUIDED)
LOOPS(nonmonotonic_dynamic,S_DYNAMIC) LOOPS(nonmonotonic_guided,S_GUIDED)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s,long e,long i,long *is,long *ie) { WS *w=enter_ws(); loop_set(w,s,e,i,1,S_DYNAMIC); g.cur->lb=0; return loop_next(is,ie); } \
bool GOMP_loop_##name##_next(long *is,long *ie) { return loop_next(is,ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,unsigned) { WS w; memset((void*)&w,0,sizeof w); loop_set(&w,s,e,i,1,S_DYNAMIC); long lb=g.cur->lb; g.cur->lb=0; run_region(fn,d,n,&w); g.cur->lb=lb; } \
bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long *is,unsigned long long *ie) { WS *w=enter_ws(); uloop_set(w,up,s,e,i,1,S_DYNAMIC); g.cur->lb=0; return uloop_next(is,ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *is,unsigned long long *ie) { return uloop_next(is,ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { Team *t=g.cur->team; leave_ws(); barrier(t); }
void GOMP_loop_end_nowait() { leave_ws(); }

/* ordered loops: chunks take turns in the order of their iterations */
static void o_turn() { Th *me=g.cur; WS *w=me->ws; while (w->ordered_next!=me->olo) wait_on(&w->ordered_next,"ordered"); vc_acquire(me,&w->sync); }
static void o_pass() { Th *me=g.cur; WS *w=me->ws; if (!w || me->ohi<0) return; o_turn(); vc_release(me,&w->sync); w->ordered_next=me->ohi; me->ohi=-1; wake_all(&w->ordered_next); }
static bool o_next(long *is,long *ie) {
   Th *me=g.cur; WS *w=me->ws; o_pass();
   if (!loop_next(is,ie)) return false;
   me->olo=(*is-w->first)/w->incr; me->ohi=me->olo+(*ie-*is)/w->incr; return true;
}
static bool uo_next(unsigned long long *is,unsigned long long *ie) {
   Th *me=g.cur; WS *w=me->ws; o_pass();
   if (!uloop_next(is,ie)) return false;
   const unsigned long long first=(unsigned long long)w->first, inc=w->up?w->uincr:0-w->uincr;
   me->olo=long((w->up?*is-first:first-*is)/inc); me->ohi=me->olo+long((w->up?*ie-*is:*is-*ie)/inc); return true;
}
void GOMP_ordered_start() { if (g.active && g.cur->ws && g.cur->team->n>1) o_turn(); }
void GOMP_ordered_end() { strong_point(); }
#define LOOPO(name,S) \
bool GOMP_loop_ordered_##name##_start(long s,long e,long i,long c,long *is,long *ie) { WS *w=enter_ws(); loop_set(w,s,e,i,c,S); g.cur->lb=0; g.cur->ohi=-1; return o_next(is,ie); } \
bool GOMP_loop_ordered_##name##_next(long *is,long *ie) { return o_next(is,ie); } \
bool GOMP_loop_ull_ordered_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long *is,unsigned long long *ie) { WS *w=enter_ws(); uloop_set(w,up,s,e,i,c,S); g.cur->lb=0; g.cur->ohi=-1; return uo_next(is,ie); } \
bool GOMP_loop_ull_ordered_##name##_next(unsigned long long *is,unsigned long long *ie) { return uo_next(is,ie); }
LOOPO(static,S_STATIC) LOOPO(dynamic,S_DYNAMIC) LOOPO(guided,S_GUIDED)
bool GOMP_loop_ordered_runtime_start(long s,long e,long i,long *is,long *ie) { return GOMP_loop_ordered_dynamic_start(s,e,i,1,is,ie); }
bool GOMP_loop_ordered_runtime_next(long *is,long *ie) { return o_next(is,ie); }

/* omp_* */
int omp_get_thread_num() { return g.cur->tnum; }
int omp_get_num_threads() { return g.cur->team->n; }
int omp_get_max_threads() { return int(icv_threads(g.cur->team)); }
int omp_get_num_procs() { return g.nthreads; }
int omp_in_parallel() { return g.cur->team->active_level>0; }
void omp_set_num_threads(int n) { if (n>0) { if (g.cur->team->active_level==0) g.nthreads=n; else g.nthreads2=n; } }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return g.p_short>0; }
void omp_set_nested(int v) { g.max_levels = v ? 8 : 1; }
int omp_get_nested() { return g.max_levels>1; }
void omp_set_max_active_levels(int n) { if (n>=0) g.max_levels=n; }
int omp_get_max_active_levels() { return g.max_levels; }
int omp_get_level() { return g.cur->team->level; }
int omp_get_active_level() { return g.cur->team->active_level; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_team_size(int l) { Team *t=g.cur->team; while (t && t->level>l) t=t->parent; return t?t->n:-1; }
int omp_get_ancestor_thread_num(int l) { Team *t=g.cur->team; int n=g.cur->tnum; while (t && t->level>l) { n=t->parent_tnum; t=t->parent; } return t?n:-1; }
int omp_get_cancellation() { return 0; }
int omp_get_supported_active_levels() { return 8; }
void omp_set_schedule(int,int) {}
void omp_get_schedule(int *k,int *c) { *k=2; *c=1; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void *p) { lock(lock_of(p),"omp lock"); }
void omp_unset_lock(void *p) { unlock(lock_of(p)); }
int omp_test_lock(void *p) { return trylock(lock_of(p)); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void *p) { lock(lock_of(p),"omp nested lock",true); }
void omp_unset_nest_lock(void *p) { unlock(lock_of(p)); }

/* mutexes and one-time initialisation of the repository's own code */
int __sim_pthread_mutex_lock(void *m) { lock(lock_of(m),"mutex",((pthread_mutex_t*)m)->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int __sim_pthread_mutex_trylock(void *m) { return trylock(lock_of(m)) ? 0 : 16; }
int __sim_pthread_mutex_unlock(void *m) { unlock(lock_of(m)); return 0; }
int __sim_pthread_once(int *c, void (*fn)(void)) {
   Lock *l=lock_of(c); lock(l,"once",true);
   if (!*c) { fn(); *c=1; }
   unlock(l); return 0;
}
int __cxa_guard_acquire(uint64_t *gd) {
   if (*(volatile char*)gd) { if (g.active) vc_acquire(g.cur,&lock_of(gd)->sync); return 0; }
   Lock *l=lock_of(gd); lock(l,"static initialisation",true);
   if (*(volatile char*)gd) { unlock(l); return 0; }
   return 1;
}
void __cxa_guard_release(uint64_t *gd) { if (g.active) vc_release(g.cur,sync_of(gd)); *(volatile char*)gd=1; unlock(lock_of(gd)); }
void __cxa_guard_abort(uint64_t *gd) { unlock(lock_of(gd)); }
}
