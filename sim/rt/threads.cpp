// std::thread, pthreads, condition variables and futures of the repository's own code, on simulated threads.
#include "rt_int.hpp"
#include <cerrno>
#include <ctime>

using namespace rt;
struct StdState { virtual ~StdState() {} virtual void run()=0; };      // same layout as std::thread::_State
namespace rt {
struct Slot { bool used, done, detached; int pending; StdState *st; void *(*fn)(void*); void *arg, *ret; Sync sync; Th dummy; };
static Slot slots[MAXT];

static void body(void *p) {
   Slot *s=(Slot*)p; g.active=true;
   Team *t=new_team(); t->n=1; g.cur->team=t;
   if (s->st) { s->st->run(); delete s->st; s->st=nullptr; } else s->ret=s->fn(s->arg);
   g.active=true; t->used=false;
   vc_release(g.cur,&s->sync);
   s->done=true; wake_all(s);
   if (s->detached) { g.par--; s->used=false; }
}
static unsigned long create(StdState *st, void *(*fn)(void*), void *arg) {
   for (unsigned long i=0;i<MAXT;i++) if (!slots[i].used) {
      Slot *s=&slots[i]; Th *me=g.cur;
      *s=Slot(); s->used=true; s->pending=1; s->st=st; s->fn=fn; s->arg=arg;
      res->sync_ops++; res->team_threads++;
      g.par++; me->vc[me->id]++;
      start_thread(body,s,&s->pending,me)->parent=&s->dummy;     // its clock is joined by whoever joins it
      me->vc[me->id]++;
      strong_point();
      return i+1;
   }
   violation("limit","too many threads"); stop();
}
static void *join(unsigned long h) {
   Slot *s=&slots[h-1];
   strong_point();
   while (!s->done) wait_on(s,"join");
   vc_acquire(g.cur,&s->sync); g.par--; s->used=false;
   return s->ret;
}
static void detach(unsigned long h) { Slot *s=&slots[h-1]; if (s->done) { g.par--; s->used=false; } else s->detached=true; }
static void cond_wait(void *c, pthread_mutex_t *m, bool timed, bool *timeout);
void mutex_release(void *m);
}
extern "C" {
int __sim_pthread_mutex_lock(void*); int __sim_pthread_mutex_unlock(void*);
#define TH(n) asm("__sim__ZNSt6thread" n)
void th_start(unsigned long*, StdState**, void(*)()) TH("15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void th_join(unsigned long*) TH("4joinEv");
void th_detach(unsigned long*) TH("6detachEv");
void th_start(unsigned long *id, StdState **st, void(*)()) { StdState *p=*st; *st=nullptr; *id=create(p,nullptr,nullptr); }
void th_join(unsigned long *id) { rt::join(*id); *id=0; }
void th_detach(unsigned long *id) { rt::detach(*id); *id=0; }
unsigned __sim__ZNSt6thread20hardware_concurrencyEv() { return unsigned(g.nthreads); }
int __sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void*), void *a) { *t=create(nullptr,fn,a); return 0; }
int __sim_pthread_join(pthread_t t, void **r) { void *v=rt::join(t); if (r) *r=v; return 0; }
int __sim_pthread_detach(pthread_t t) { rt::detach(t); return 0; }

int __sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { bool x; rt::cond_wait(c,m,false,&x); return 0; }
int __sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec*) { bool x; rt::cond_wait(c,m,true,&x); return x?ETIMEDOUT:0; }
int __sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec*) { bool x; rt::cond_wait(c,m,true,&x); return x?ETIMEDOUT:0; }
int __sim_pthread_cond_signal(pthread_cond_t *c) { strong_point(); wake_all(c); return 0; }      // waking all is a legal spurious wake-up
int __sim_pthread_cond_broadcast(pthread_cond_t *c) { strong_point(); wake_all(c); return 0; }
struct ULock { pthread_mutex_t *m; bool owns; };
void __sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, ULock *l) { bool x; rt::cond_wait(c,l->m,false,&x); }
void __sim__ZNSt18condition_variable10notify_oneEv(void *c) { strong_point(); wake_all(c); }
void __sim__ZNSt18condition_variable10notify_allEv(void *c) { strong_point(); wake_all(c); }
bool __sim__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned *a, unsigned v, bool timed, long, long) {
   strong_point();
   while (*(volatile unsigned*)a==v) { if (timed) { g.clock_ns+=1000000; yield_point(); return *(volatile unsigned*)a!=v; } wait_on(a,"future"); }
   return true;
}
bool __sim__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *t, unsigned *a, unsigned v, bool timed, long s, long n) {
   return __sim__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t,a,v,timed,s,n);
}
void __sim__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) { strong_point(); wake_all(a); }
}
namespace rt {
static void cond_wait(void *c, pthread_mutex_t *m, bool timed, bool *timeout) {
   *timeout=false;
   mutex_release(m);                             // no other thread runs between releasing the mutex and waiting
   if (timed) { g.clock_ns+=1000000; yield_point(); *timeout=true; }
   else wait_on(c,"condition variable");
   __sim_pthread_mutex_lock(m);
}
}
