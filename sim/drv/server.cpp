// Fork server: one plan per input line, one run per fork, one JSON line per run.
#include "scen.hpp"
#include "../rt/rt_int.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace rt;

static char buf[1<<20];
double pd(const char *k, double d) { return plan.d(k,d); }
long pl(const char *k, long d) { return long(plan.i(k,d)); }
std::string ps(const char *k, const char *d) { char b[512]; const char *r=plan.get(k,b,sizeof b); return r?r:d; }
ref::Par par_from_plan() {
   ref::Par p; memset((void*)&p,0,sizeof p);
   p.nx=pl("nx",17); p.nl=pl("nl",4); p.nm=pl("nm",4); p.nlat=pl("nlat",6); p.nphi=pl("nphi",10);
   p.nt=pl("nt",3); p.save=pl("t_step_save",1); p.dt=pd("dt",0.001);
   p.cl=pd("compactification_length",1); p.Rmax=pd("Rmax",1); p.Rmin=pd("Rmin",0.6);
   p.mass=pd("black_hole_mass",0.5); p.spin=pd("black_hole_spin",0.2);
   p.km1=pd("km1",0); p.k0=pd("k0",1); p.k1=pd("k1",0); p.k2=pd("k2",0);
   p.V2=pd("V2",0); p.V3=pd("V3",0); p.V4=pd("V4",0);
   p.amp=pd("amp",0.1); p.rl=pd("rl",1.1); p.ru=pd("ru",3); p.l_ang=int(pl("l_ang",0)); p.m_ang=int(pl("m_ang",0));
   std::string d=ps("initial_data_direction","time_symmetric"); p.dir = d=="ingoing"?1 : d=="outgoing"?2 : 0;
   return p;
}
static const char *const keys[]={"nt","nx","nl","nm","nlat","nphi","t_step_save","dt","compactification_length","Rmax","Rmin",
   "black_hole_mass","black_hole_spin","km1","k0","k1","k2","V2","V3","V4","initial_data_type","initial_data_direction","amp","rl","ru","l_ang","m_ang"};
void write_params() {
   FILE *f=fopen("params.txt","w"); if (!f) { fprintf(stderr,"params.txt: %s\n",strerror(errno)); _exit(97); }
   for (const char *k: keys) { char b[512]; const char *v=plan.get(k,b,sizeof b);
      if (!v && !strcmp(k,"initial_data_type")) v="compact_pulse";
      if (v) fprintf(f,"%s %s\n",k,v); }
   fclose(f);
}
extern "C" int __sigaction(int, const struct sigaction*, struct sigaction*);
static void on_signal(int s) { sync_stats(); struct sigaction d; memset(&d,0,sizeof d); d.sa_handler=SIG_DFL; __sigaction(s,&d,nullptr); rt::program_handler(s); raise(s); }
static void at_end() { sync_stats(); fflush(stdout); }
static void (*scen_fn)();
static void body(void*) { scen_fn(); }

static void child(Result *r, char *text) {
   Plan p{text};
   char b[600];
   int fd=open(p.get("con",b,sizeof b)?b:"/dev/null",O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
   if (fd<0) { fprintf(stderr,"console %s: %s\n",b,strerror(errno)); _exit(96); }
   dup2(fd,1); dup2(fd,2); close(fd);
   int nul=open("/dev/null",O_RDONLY); dup2(nul,0); close(nul);
   if (p.get("dir",b,sizeof b) && chdir(b)) { _exit(95); }
   struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
   signal(SIGABRT,on_signal); signal(SIGFPE,on_signal); signal(SIGILL,on_signal); signal(SIGBUS,on_signal);
   static char alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt;
   (void)ss;
   signal(SIGSEGV,on_signal);
   atexit(at_end); at_quick_exit(at_end);
   alarm(unsigned(p.i("wall",120)));
   memset((void*)r,0,offsetof(Result,sw)); r->ndata=0;
   child_init(r,text);
   if (p.i("mkpar",0)) write_params();
   std::string sc=ps("sc","");
   for (const Scen *s=scens; s->name; s++) if (sc==s->name) { scen_fn=s->fn; run_main(body,nullptr); fflush(nullptr); _exit(r->main_rc); }
   fprintf(stderr,"no scenario %s\n",sc.c_str()); _exit(94);
}
// The server itself never touches the simulated heap between runs: every fork starts from the same state.
struct Text {
   char b[4<<20]; size_t n;
   void operator+=(const char *s) { size_t k=strlen(s); if (n+k<sizeof b) { memcpy(b+n,s,k); n+=k; } }
   void operator+=(char c) { if (n+1<sizeof b) b[n++]=c; }
};
static Text o;
static void js(const char *s, size_t n) {
   o+='"';
   for (size_t i=0;i<n;i++) { unsigned char c=s[i]; if (c=='"'||c=='\\') { o+='\\'; o+=char(c); } else if (c<32||c>126) { char t[8]; snprintf(t,sizeof t,"\\u%04x",c); o+=t; } else o+=char(c); }
   o+='"';
}
int main() {
   set_active(false);
   Result *r=(Result*)mmap(nullptr,sizeof(Result),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   if (r==MAP_FAILED) return 98;
   int outfd=dup(1);
   { char m[64]; int k=snprintf(m,sizeof m,"READY %d %d\n",int(IS_CHEB),int(IS_CONTIG)); if (::write(outfd,m,size_t(k))<0) return 1; }
   while (fgets(buf,sizeof buf,stdin)) {
      size_t n=strlen(buf); while (n && (buf[n-1]=='\n'||buf[n-1]=='\r')) buf[--n]=0;
      if (!n) continue;
      memset((void*)r,0,offsetof(Result,sw)); r->ndata=0;
      pid_t pid=fork();
      if (pid<0) { perror("fork"); return 99; }
      if (!pid) { close(outfd); child(r,buf); _exit(93); }
      int st=0; while (waitpid(pid,&st,0)<0 && errno==EINTR) {}
      int status = WIFEXITED(st) ? WEXITSTATUS(st) : 256+WTERMSIG(st);
      o.n=0; o+="{"; char t[256];
      auto num=[&](const char *k, unsigned long long v) { snprintf(t,sizeof t,"\"%s\":%llu,",k,v); o+=t; };
      snprintf(t,sizeof t,"\"status\":%d,\"rc\":%d,",status,r->main_rc); o+=t;
      num("finished",r->finished); num("nviol",r->nviol); num("ev",r->ev);
      snprintf(t,sizeof t,"\"hash\":\"%016llx\",\"shash\":\"%016llx\",",(unsigned long long)r->hash,(unsigned long long)r->sched_hash); o+=t;
#define N(f) num(#f,r->f)
      N(regions); N(team_threads); N(short_teams); N(preempt); N(forced); N(sync_ops); N(allocs); N(alloc_fail); N(fftw_allocs);
      N(io_ops); N(io_open); N(io_read); N(io_write); N(io_close); N(f_open); N(f_read_short); N(f_read_eintr); N(f_read_err);
      N(f_write_short); N(f_write_eintr); N(f_write_err); N(f_nospace); N(f_close); N(f_lost); N(f_grow); N(crashed); N(signals); N(clock_reads);
      N(plan_calls); N(transforms); N(execs); N(checks); N(steps); N(live_end); N(nsw);
      snprintf(t,sizeof t,"\"simtime\":%.9g,\"maxerr\":\"%.6g\",\"viol\":[",r->simtime,r->maxerr); o+=t;
      for (uint32_t i=0;i<r->nviol && i<8;i++) { if (i) o+=','; js(r->viol[i],strnlen(r->viol[i],MSGLEN)); }
      o+="],\"data\":"; js(r->data,r->ndata<MAXDATA?r->ndata:MAXDATA-1);
      Plan p{buf};
      if (p.i("trace",0)) { o+=",\"sw\":\""; for (uint32_t i=0;i<r->nsw && i<MAXSW;i++) { snprintf(t,sizeof t,"%s%llu:%u",i?",":"",(unsigned long long)r->sw[i].ev,r->sw[i].tid); o+=t; } o+='"'; }
      o+="}\n";
      const char *q=o.b; size_t left=o.n;
      while (left) { ssize_t k=::write(outfd,q,left); if (k<=0) return 1; q+=k; left-=size_t(k); }
   }
   return 0;
}
