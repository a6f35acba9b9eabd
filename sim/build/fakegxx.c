/* A compiler that records what it was asked to compile instead of compiling it.
 *
 * An "object" names its source, a hash of the source and of everything it includes, and the macros it was compiled
 * with; an "executable" is the concatenation of its objects.  The file SFK_GXX/plan holds "N KIND" lines: invocation
 * N of this operation fails (fail), fails and leaves part of its output (part), dies together with everything that
 * called it (kill), or is interrupted together with its callers (int).  Outputs get simulated time stamps.
 * Before it does anything it announces itself to the scheduler (socket SFK_SOCK) and waits for its turn. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>

static char dir[512];
static char *slurp(const char *p, size_t *n) {
   FILE *f=fopen(p,"rb"); if (!f) return NULL;
   fseek(f,0,SEEK_END); long l=ftell(f); rewind(f);
   char *b=malloc((size_t)l+1); *n=fread(b,1,(size_t)l,f); b[*n]=0; fclose(f); return b;
}
static long counter(const char *name, long by) {
   char p[700]; snprintf(p,sizeof p,"%s/%s",dir,name);
   long v=0; FILE *f=fopen(p,"r"); if (f) { if (fscanf(f,"%ld",&v)!=1) v=0; fclose(f); }
   v+=by; f=fopen(p,"w"); fprintf(f,"%ld\n",v); fclose(f); return v;
}
static char seen[256][300]; static int nseen;
static uint64_t h;
static int include(const char *path, int depth) {
   for (int i=0;i<nseen;i++) if (!strcmp(seen[i],path)) return 1;
   size_t n; char *b=slurp(path,&n); if (!b) return 0;
   if (nseen<256) snprintf(seen[nseen++],300,"%s",path);
   uint64_t g=14695981039346656037ull;
   for (size_t i=0;i<n;i++) g=(g^(unsigned char)b[i])*1099511628211ull;
   h=(h^g)*1099511628211ull;
   char base[300]; snprintf(base,sizeof base,"%s",path); char *s=strrchr(base,'/'); if (s) s[1]=0; else base[0]=0;
   int ok=1;
   for (char *q=b; q && depth<30; q=strchr(q,'\n')) {
      if (*q=='\n') q++;
      char *t=q; while (*t==' '||*t=='\t') t++;
      if (*t!='#') continue;
      t++; while (*t==' '||*t=='\t') t++;
      if (strncmp(t,"include",7)) continue;
      t+=7; while (*t==' '||*t=='\t') t++;
      if (*t!='"') continue;
      char name[200]; int k=0; t++; while (*t && *t!='"' && *t!='\n' && k<199) name[k++]=*t++; name[k]=0;
      char full[600]; snprintf(full,sizeof full,"%s%s",base,name);
      if (!include(full,depth+1)) { fprintf(stderr,"%s: No such file\n",full); ok=0; }
   }
   free(b); return ok;
}
static int cmp(const void *a, const void *b) { return strcmp(*(char*const*)a,*(char*const*)b); }

int main(int argc, char **argv) {
   const char *d=getenv("SFK_GXX"); if (!d) return 9;
   snprintf(dir,sizeof dir,"%s",d);
   const char *out=NULL; int comp=0; const char *in[200]; int nin=0; char *defs[200]; int nd=0;
   for (int i=1;i<argc;i++) {
      char *a=argv[i];
      if (!strcmp(a,"-c")) comp=1;
      else if (!strcmp(a,"-o") && i+1<argc) out=argv[++i];
      else if (!strncmp(a,"-D",2) || !strncmp(a,"-U",2)) {
         char *m=a[2]?a+2:(i+1<argc?argv[++i]:""); char key[100]; snprintf(key,sizeof key,"%s",m); char *e=strchr(key,'='); if (e) *e=0;
         for (int j=0;j<nd;j++) { size_t l=strlen(key); if (!strncmp(defs[j],key,l) && (defs[j][l]==0||defs[j][l]=='=')) { defs[j]=defs[--nd]; j--; } }
         if (a[1]=='D' && nd<200) defs[nd++]=strdup(m);
      }
      else if (!strcmp(a,"-I")||!strcmp(a,"-L")||!strcmp(a,"-l")||!strcmp(a,"-include")) i++;
      else if (a[0]!='-' && nin<200) in[nin++]=a;
   }
   qsort(defs,(size_t)nd,sizeof defs[0],cmp);
   const char *sock=getenv("SFK_SOCK");
   if (sock) {                                       // stays connected until this process ends
      struct sockaddr_un a; memset(&a,0,sizeof a); a.sun_family=AF_UNIX; snprintf(a.sun_path+1,sizeof a.sun_path-1,"%s",sock);
      int c=socket(AF_UNIX,SOCK_STREAM|SOCK_CLOEXEC,0); char msg[400], go;
      if (connect(c,(struct sockaddr*)&a,(socklen_t)(sizeof a.sun_family+1+strlen(a.sun_path+1)))) return 9;
      int k=snprintf(msg,sizeof msg,"%d %s %s\n",(int)getpid(),comp?"c":"l",out?out:"-");
      if (write(c,msg,(size_t)k)!=k || read(c,&go,1)!=1) return 9;
   }
   long me=counter("count",1);
   char p[700]; snprintf(p,sizeof p,"%s/log",dir); FILE *lg=fopen(p,"a"); fprintf(lg,"%ld %s %s\n",me,comp?"compile":"link",out?out:"-"); fclose(lg);
   char kind[20]=""; snprintf(p,sizeof p,"%s/plan",dir); FILE *pl=fopen(p,"r");
   if (pl) { long n; char k[20]; while (fscanf(pl,"%ld %19s",&n,k)==2) if (n==me) strcpy(kind,k); fclose(pl); }
   if (!strcmp(kind,"fail")) { fprintf(stderr,"simulated compiler failure\n"); return 1; }
   char *text=NULL; size_t len=0; FILE *o=open_memstream(&text,&len);
   for (int i=0;i<nin;i++) {
      size_t l=strlen(in[i]);
      if (l>2 && !strcmp(in[i]+l-2,".o")) {
         if (comp) continue;
         size_t n; char *b=slurp(in[i],&n);
         if (!b) { fprintf(stderr,"%s: No such file or directory\n",in[i]); return 1; }
         if (n<5 || strcmp(b+n-4,"END\n")) { fprintf(stderr,"%s: file truncated\n",in[i]); return 1; }
         fwrite(b,1,n-4,o); free(b);
      } else {
         h=14695981039346656037ull; nseen=0;
         struct stat st; if (stat(in[i],&st)) { fprintf(stderr,"%s: No such file or directory\n",in[i]); return 1; }
         if (!include(in[i],0)) return 1;
         const char *s=strrchr(in[i],'/'); s=s?s+1:in[i];
         fprintf(o,"OBJ %s %016lx ",s,(unsigned long)h);
         for (int j=0;j<nd;j++) fprintf(o,"%s%s",j?",":"",defs[j]);
         fprintf(o,"\n");
      }
   }
   if (!nin) { fprintf(stderr,"no input files\n"); return 1; }
   fprintf(o,"END\n"); fclose(o);
   if (!out) out="a.out";
   int part=!strcmp(kind,"part")||!strcmp(kind,"kill")||!strcmp(kind,"int");
   unlink(out);
   int fd=open(out,O_WRONLY|O_CREAT|O_TRUNC,comp?0644:0755); if (fd<0) { perror(out); return 1; }
   if (write(fd,text,part?len/2:len)<0) return 1;
   long t=counter("clock",3);
   struct timespec ts[2]={{t,0},{t,0}}; futimens(fd,ts); close(fd);
   if (!strcmp(kind,"kill")) { kill(0,SIGKILL); pause(); }
   if (!strcmp(kind,"int")) { unlink(out); kill(0,SIGINT); signal(SIGINT,SIG_DFL); raise(SIGINT); pause(); }
   if (part) { unlink(out); return 1; }
   return 0;
}
