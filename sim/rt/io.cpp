// Disk, clock and entropy seams.  Files live in the run's scratch directory (key dir=); faults come
// from the plan:  flt=o2:EIO,i2:EIO,x1:EIO,k1:EIO,r3:short:5,w4:eintr,w7:eio,w9:stick,c1:EIO   quota=BYTES   killio=K torn=N
// nofile=N (descriptors the run may hold at a time)
// grow=n1:n2:...  (a file that is still being written: size visible at the i-th open/read)
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace rt;
namespace rt {
enum { MAXFD = 256, MAXFLT = 512 };
struct FD { bool on, stick, wr; long long written; };
static FD fds[MAXFD];
static struct { FILE *fp; int fd; } cookies[MAXFD];
struct Flt { char op; unsigned k; char act[12]; long arg; bool has; };
static Flt flt[MAXFLT]; static int nflt;
static unsigned n_o, n_i, n_x, n_r, n_w, n_c, n_k, n_any;   // opens (all, reading, writing), reads, writes, closes (all, of written files)
static long long quota; static unsigned killio; static long torn;
static long grow[4096]; static int ngrow; static unsigned grow_i; static char grow_name[64];
static int grow_fd[MAXFD];
static char dir[512]; static size_t dirlen;
static bool on;
static int nofile, nopen;   // limit on open descriptors, those open now

void io_init() {
   nflt=0; n_o=n_i=n_x=n_r=n_w=n_c=n_k=n_any=0; on=false; memset(fds,0,sizeof fds); memset(cookies,0,sizeof cookies); memset(grow_fd,0,sizeof grow_fd);
   quota = plan.i("quota",-1); killio=(unsigned)plan.i("killio",0); torn=(long)plan.i("torn",0); nofile=(int)plan.i("nofile",0); nopen=0;
   on = plan.get("dir",dir,sizeof dir)!=nullptr; dirlen=strlen(dir);
   static char b[16384];
   if (plan.get("flt",b,sizeof b)) {
      char *sv=nullptr;
      for (char *p=strtok_r(b,",",&sv); p && nflt<MAXFLT; p=strtok_r(nullptr,",",&sv)) {
         Flt *f=&flt[nflt]; memset(f,0,sizeof *f);
         char *e; f->op=p[0]; f->k=(unsigned)strtoul(p+1,&e,10);
         if (*e==':') { e++; char *c=strchr(e,':'); size_t n=c?size_t(c-e):strlen(e); if (n>11) n=11; memcpy(f->act,e,n); if (c) { f->arg=strtol(c+1,nullptr,10); f->has=true; } }
         nflt++;
      }
   }
   ngrow=0; grow_i=0;
   if (plan.get("grow",b,sizeof b)) {
      char *p=b; while (*p && ngrow<4096) { char *e; grow[ngrow++]=strtol(p,&e,10); p=e; if (*p==':') p++; else break; }
      if (!plan.get("growf",grow_name,sizeof grow_name)) strcpy(grow_name,"params.txt");
   }
}
static Flt *find(char op, unsigned k) { for (int i=0;i<nflt;i++) if (flt[i].op==op && flt[i].k==k) return &flt[i]; return nullptr; }
static int err_of(const char *a) {
   static const struct { const char *n; int e; } t[]={{"EIO",EIO},{"eio",EIO},{"ENOSPC",ENOSPC},{"EACCES",EACCES},{"ENOENT",ENOENT},{"EMFILE",EMFILE},{"EINTR",EINTR},{"eintr",EINTR},{"EDQUOT",EDQUOT},{"EROFS",EROFS},{"EISDIR",EISDIR}};
   for (auto &x: t) if (!strcmp(x.n,a)) return x.e;
   return EIO;
}
static bool inside(const char *path, bool write) {   // belongs to the run's scratch directory?
   if (!on) return false;
   char full[1024];
   if (path[0]=='/') snprintf(full,sizeof full,"%s",path);
   else { char cwd[512]; if (!getcwd(cwd,sizeof cwd)) return false; snprintf(full,sizeof full,"%s/%s",cwd,path); }
   if (strstr(full,"/../")) { if (write) { violation("containment","write outside the run directory: %s",path); stop(); } return false; }
   bool in = !strncmp(full,dir,dirlen) && (full[dirlen]=='/' || !full[dirlen]);
   if (!in && write && strncmp(full,"/dev/",5)) { violation("containment","write outside the run directory: %s",path); stop(); }
   return in;
}
static void kill_now() { killio=0; terminate_signal(); }
enum { NSIGS = 65 };
static struct sigaction acts[NSIGS];      // what the program asked to happen when a signal arrives
static bool at_kill() { ++n_any; return killio && n_any==killio; }
static void grow_tick() { if (grow_i<0x7fffffff) grow_i++; }
static long grow_limit() { if (!ngrow) return -1; unsigned i=grow_i?grow_i-1:0; return i<(unsigned)ngrow ? grow[i] : grow[ngrow-1]; }

static int pre_open(const char *path, bool wr) { // 0 ok, else errno
   res->io_ops++; res->io_open++; n_o++; mixhash(0x0b0+n_o);
   if (at_kill() && !torn) kill_now();
   Flt *f=find('o',n_o), *h=wr?find('x',++n_x):find('i',++n_i);
   if (!f) f=h;
   if (f) { res->f_open++; return err_of(f->act); }
   if (nofile && nopen>=nofile) { res->f_open++; return EMFILE; }
   (void)path;
   return 0;
}
static void post_open(int fd, const char *path, bool wr) {
   if (fd<0 || fd>=MAXFD) return;
   fds[fd]=FD{true,false,wr,0}; nopen++; grow_fd[fd]=0;
   if (ngrow && !wr) { const char *b=strrchr(path,'/'); b=b?b+1:path; if (!strcmp(b,grow_name)) { grow_fd[fd]=1; grow_tick(); } }
   if (killio && n_any==killio) kill_now();
}
static ssize_t sim_read(int fd, void *buf, size_t n) {
   point();
   res->io_ops++; res->io_read++; n_r++; mixhash(0x4ead+n_r*7+n);
   Flt *f=find('r',n_r);
   if (f) {
      if (!strcmp(f->act,"short")) { size_t m=f->arg>0?size_t(f->arg):1; if (m<n) { n=m; } res->f_read_short++; }
      else { int e=err_of(f->act); if (e==EINTR) res->f_read_eintr++; else res->f_read_err++; errno=e; return -1; }
   }
   if (grow_fd[fd]) {
      grow_tick();
      long lim=grow_limit(); off_t pos=lseek(fd,0,SEEK_CUR);
      long av=lim-long(pos); if (av<0) av=0;
      if (size_t(av)<n) { n=size_t(av); res->f_grow++; }
      if (!n) return 0;
   }
   return syscall(SYS_read,fd,buf,n);
}
static ssize_t sim_writev(int fd, const struct iovec *iv, int cnt) {
   strong_point();
   size_t n=0; for (int i=0;i<cnt;i++) n+=iv[i].iov_len;
   res->io_ops++; res->io_write++; n_w++; mixhash(0x34170+n_w*7+n);
   static char *tmp; static size_t cap; 
   if (n>cap) { cap=n*2+4096; tmp=(char*)realloc(tmp,cap); }
   size_t k=0; for (int i=0;i<cnt;i++) { memcpy(tmp+k,iv[i].iov_base,iv[i].iov_len); k+=iv[i].iov_len; }
   if (at_kill()) { size_t t=size_t(torn)<n?size_t(torn):n; if (t && syscall(SYS_write,fd,tmp,t)<0) {} kill_now(); if (t) { fds[fd].written+=(long long)t; return (ssize_t)t; } }
   if (fds[fd].stick) { res->f_write_err++; errno=EIO; return -1; }
   Flt *f=find('w',n_w);
   if (f) {
      if (!strcmp(f->act,"short")) { size_t m=f->arg>0?size_t(f->arg):1; if (m<n) n=m; res->f_write_short++; }
      else if (!strcmp(f->act,"stick")) { fds[fd].stick=true; res->f_write_err++; errno=EIO; return -1; }
      else { int e=err_of(f->act); if (e==EINTR) res->f_write_eintr++; else res->f_write_err++; errno=e; return -1; }
   }
   if (quota>=0) {
      if (quota==0) { res->f_nospace++; errno=ENOSPC; return -1; }
      if ((long long)n>quota) { n=size_t(quota); res->f_nospace++; }
      quota-=(long long)n;
   }
   const ssize_t done=syscall(SYS_write,fd,tmp,n);
   if (done>0) fds[fd].written+=done;
   return done;
}
static int sim_close_fault(int fd) {   // a failing close may lose the end of what was written through it (delayed allocation, NFS)
   const bool wr=fds[fd].wr;
   res->io_ops++; res->io_close++; n_c++; mixhash(0xc1050+n_c);
   if (at_kill()) { kill_now(); }
   Flt *f=find('c',n_c), *h=wr?find('k',++n_k):nullptr;
   if (!f) f=h;
   if (f) {
      res->f_close++;
      long long lose = f->arg<fds[fd].written ? f->arg : fds[fd].written; struct stat st;
      if (wr && lose>0 && !fstat(fd,&st) && st.st_size>=lose && syscall(SYS_ftruncate,fd,(long)(st.st_size-lose))==0) res->f_lost++;
      return err_of(f->act);
   }
   return 0;
}
static bool tracked(int fd) { return on && fd>=0 && fd<MAXFD && fds[fd].on; }
static void clock_tick() {
   res->clock_reads++;
   uint64_t r=env_rand();
   g.clock_ns += r%1000000;
   switch (r>>60) { case 0: g.clock_ns += 3600ull*1000000000ull*((r>>8)%100); break;         // jump forwards
                    case 1: if (g.clock_ns>4000ull*1000000000ull) g.clock_ns -= 1000000000ull*((r>>8)%3600); break; } // set back
}
}
static void handle(int sig, const struct sigaction &a) {
   if (a.sa_flags&SA_RESETHAND) acts[sig].sa_handler=SIG_DFL;
   if (a.sa_flags&SA_SIGINFO) { siginfo_t si; memset(&si,0,sizeof si); si.si_signo=sig; a.sa_sigaction(sig,&si,nullptr); } else a.sa_handler(sig);
}
void rt::program_handler(int sig) {
   const struct sigaction a=acts[sig];
   if (a.sa_handler!=SIG_DFL && a.sa_handler!=SIG_IGN) handle(sig,a);
}
void rt::terminate_signal() {
   const int sig=int(plan.i("ksig",SIGKILL));
   const struct sigaction a = sig>0 && sig<NSIGS ? acts[sig] : acts[0];
   if (sig==SIGKILL || a.sa_handler==SIG_DFL) { res->crashed++; sync_stats(); _exit(137); }
   res->signals++;
   if (a.sa_handler==SIG_IGN) return;
   handle(sig,a);
}
extern "C" {
int __sigaction(int, const struct sigaction*, struct sigaction*);
static int do_open(int dfd, const char *path, int fl, mode_t md) {
   bool wr=(fl&O_ACCMODE)!=O_RDONLY || (fl&(O_CREAT|O_TRUNC));
   if (g.active && inside(path,wr)) {
      int e=pre_open(path,wr); if (e) { errno=e; return -1; }
      int fd=(int)syscall(SYS_openat,dfd,path,fl,md); post_open(fd,path,wr); return fd;
   }
   int fd=(int)syscall(SYS_openat,dfd,path,fl,md);
   if (fd>=0 && fd<MAXFD) fds[fd].on=false;
   return fd;
}
int open(const char *p, int fl, ...) { mode_t m=0; if (fl&(O_CREAT|O_TMPFILE)) { va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} return do_open(AT_FDCWD,p,fl,m); }
int open64(const char *p, int fl, ...) { mode_t m=0; if (fl&(O_CREAT|O_TMPFILE)) { va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} return do_open(AT_FDCWD,p,fl,m); }
int openat(int d, const char *p, int fl, ...) { mode_t m=0; if (fl&(O_CREAT|O_TMPFILE)) { va_list a; va_start(a,fl); m=va_arg(a,mode_t); va_end(a);} return do_open(d,p,fl,m); }
typedef FILE *(*fopen_t)(const char*,const char*);
typedef int (*fileno_t)(FILE*);
// A stdio stream on a file of the run: its reads and writes inside the C library go through the seam too.
static ssize_t ck_read(void *c, char *b, size_t n) { int fd=int((long)c); return tracked(fd)&&g.active ? sim_read(fd,b,n) : syscall(SYS_read,fd,b,n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {      // like the C library: short writes are continued, an error ends it
   int fd=int((long)c); size_t done=0;
   while (done<n) {
      struct iovec v{const_cast<char*>(b)+done,n-done};
      ssize_t k = tracked(fd)&&g.active ? sim_writev(fd,&v,1) : syscall(SYS_write,fd,b+done,n-done);
      if (k<=0) break;
      done+=size_t(k);
   }
   return ssize_t(done);
}
static int ck_seek(void *c, off64_t *off, int whence) { off_t r=(off_t)syscall(SYS_lseek,int((long)c),*off,whence); if (r<0) return -1; *off=r; return 0; }
static int ck_close(void *c) {
   int fd=int((long)c), e=0;
   for (auto &k: cookies) if (k.fp && k.fd==fd) k.fp=nullptr;
   if (tracked(fd)) { if (g.active) e=sim_close_fault(fd); fds[fd].on=false; nopen--; }
   int r=(int)syscall(SYS_close,fd);
   if (e) { errno=e; return -1; }
   return r;
}
static int mode_flags(const char *m) {
   int fl = m[0]=='r' ? O_RDONLY : m[0]=='w' ? O_WRONLY|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND;
   for (const char *p=m+1; *p && *p!=','; p++) { if (*p=='+') fl=(fl&~O_ACCMODE)|O_RDWR; else if (*p=='x') fl|=O_EXCL; else if (*p=='e') fl|=O_CLOEXEC; }
   return fl;
}
static FILE *do_fopen(const char *name, const char *p, const char *m) {
   static fopen_t f1,f2; fopen_t &f = name[5]?f2:f1; if (!f) f=(fopen_t)dlsym(RTLD_NEXT,name);
   bool wr = m[0]!='r' || strchr(m,'+');
   if (g.active && inside(p,wr)) {
      int e=pre_open(p,wr); if (e) { errno=e; return nullptr; }
      int fd=(int)syscall(SYS_openat,AT_FDCWD,p,mode_flags(m),0666); post_open(fd,p,wr);
      if (fd<0 || fd>=MAXFD) { if (fd>=0) { syscall(SYS_close,fd); errno=EMFILE; } return nullptr; }
      static const cookie_io_functions_t fn={ck_read,ck_write,ck_seek,ck_close};
      FILE *r=fopencookie((void*)(long)fd,m,fn);
      if (!r) { int er=errno; fds[fd].on=false; nopen--; syscall(SYS_close,fd); errno=er; return nullptr; }
      for (auto &k: cookies) if (!k.fp) { k.fp=r; k.fd=fd; break; }
      return r;
   }
   FILE *r=f(p,m);
   if (r && fileno(r)>=0 && fileno(r)<MAXFD) fds[fileno(r)].on=false;
   return r;
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen",p,m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64",p,m); }
int fileno(FILE *fp) noexcept {
   static fileno_t f; if (!f) f=(fileno_t)dlsym(RTLD_NEXT,"fileno");
   for (auto &k: cookies) if (k.fp==fp) return k.fd;
   return f(fp);
}
int close(int fd) {
   int e=0;
   if (tracked(fd)) { e=sim_close_fault(fd); fds[fd].on=false; nopen--; }
   int r=(int)syscall(SYS_close,fd);
   if (e) { errno=e; return -1; }
   return r;
}
ssize_t read(int fd, void *b, size_t n) { return tracked(fd)&&g.active ? sim_read(fd,b,n) : syscall(SYS_read,fd,b,n); }
ssize_t write(int fd, const void *b, size_t n) {
   if (tracked(fd)&&g.active) { struct iovec v{const_cast<void*>(b),n}; return sim_writev(fd,&v,1); }
   return syscall(SYS_write,fd,b,n);
}
ssize_t writev(int fd, const struct iovec *v, int c) { return tracked(fd)&&g.active ? sim_writev(fd,v,c) : syscall(SYS_writev,fd,v,c); }
#define REFUSE(path) do { if (g.active) inside(path,true); } while(0)
int unlink(const char *p) { REFUSE(p); return (int)syscall(SYS_unlink,p); }
int remove(const char *p) { REFUSE(p); int r=(int)syscall(SYS_unlink,p); return r && errno==EISDIR ? (int)syscall(SYS_rmdir,p) : r; }
int rename(const char *a, const char *b) { REFUSE(a); REFUSE(b); return (int)syscall(SYS_rename,a,b); }
int mkdir(const char *p, mode_t m) { REFUSE(p); return (int)syscall(SYS_mkdir,p,m); }
int rmdir(const char *p) { REFUSE(p); return (int)syscall(SYS_rmdir,p); }
int truncate(const char *p, off_t n) { REFUSE(p); return (int)syscall(SYS_truncate,p,n); }
int system(const char *) { violation("containment","system() called"); stop(); }

int clock_gettime(clockid_t, struct timespec *t) { clock_tick(); t->tv_sec=g.clock_ns/1000000000; t->tv_nsec=g.clock_ns%1000000000; return 0; }
int gettimeofday(struct timeval *t, void *) { clock_tick(); t->tv_sec=g.clock_ns/1000000000; t->tv_usec=g.clock_ns%1000000000/1000; return 0; }
time_t time(time_t *p) { clock_tick(); time_t t=(time_t)(g.clock_ns/1000000000); if (p) *p=t; return t; }
clock_t clock(void) { clock_tick(); return (clock_t)(g.clock_ns/1000); }
double omp_get_wtime() { clock_tick(); return double(g.clock_ns)*1e-9; }
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
   if (!g.active || sig<1 || sig>=NSIGS) return __sigaction(sig,a,o);
   strong_point();
   if (sig==SIGKILL || sig==SIGSTOP) { errno=EINVAL; return -1; }
   const struct sigaction old=acts[sig];
   if (a) acts[sig]=*a;
   if (o) *o=old;
   return 0;
}
sighandler_t signal(int sig, sighandler_t h) noexcept {
   struct sigaction a, o; memset(&a,0,sizeof a); a.sa_handler=h; a.sa_flags=SA_RESTART; sigemptyset(&a.sa_mask);
   return sigaction(sig,&a,&o) ? SIG_ERR : o.sa_handler;
}
int nanosleep(const struct timespec *t, struct timespec *) { g.clock_ns += uint64_t(t->tv_sec)*1000000000ull+t->tv_nsec; yield_point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { g.clock_ns += uint64_t(t->tv_sec)*1000000000ull+t->tv_nsec; yield_point(); return 0; }
int usleep(useconds_t u) { g.clock_ns += uint64_t(u)*1000; yield_point(); return 0; }
unsigned sleep(unsigned s) { g.clock_ns += uint64_t(s)*1000000000ull; strong_point(); return 0; }
int sched_yield() { yield_point(); return 0; }
int rand(void) { return int(env_rand()>>33); }
void srand(unsigned) {}
long random(void) { return long(env_rand()>>33); }
double drand48(void) { return double(env_rand()>>11)*(1.0/9007199254740992.0); }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return unsigned(env_rand()); }
}
