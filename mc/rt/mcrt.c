// Stateless model checker runtime: implements the ThreadSanitizer compiler ABI.
//
// Instrumented code calls __tsan_atomic* / __tsan_read* / __tsan_write*; here atomics are
// scheduling points of a controlled scheduler and plain accesses feed a happens-before
// race detector.  One model thread runs at a time.  Everything the explorer itself needs to
// remember lives in *R (anonymous mapping), because the writable data of the executable, the
// heap arena and the TLS blocks of the model threads are restored before every execution, so
// that each execution starts from the same memory image.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <linux/futex.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

#define NT 4
#define MAXDEC 40000
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (1ull<<30)
#define SYNC_BITS 16

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n,long a,long b,long c,long d,long e,long f){
  long ret; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return ret;
}
static void futex_wait_raw(volatile u32*p,u32 v){ raw6(SYS_futex,(long)p,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,v,0,0,0); }
static void futex_wake_raw(volatile u32*p){ raw6(SYS_futex,(long)p,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1,0,0,0); }

// ---------------------------------------------------------------- state
enum { TS_IDLE, TS_RUN, TS_BLOCKED, TS_DONE };
enum { V_NONE, V_DEADLOCK, V_LIVELOCK, V_RACE, V_UAF, V_CRASH, V_ORACLE, V_DIVERGE };

typedef struct { u16 gen; u8 wtid; u8 flags; u16 wclk; u16 pad; u16 r[NT], ar[NT], aw[NT]; } Cell;
_Static_assert(sizeof(Cell)==32,"cell");
typedef struct { u64 addr; u32 gen; u16 l[NT]; } Sync;

typedef struct {
  int state; int yielded; u64 wait_addr; u64 wait_seq; int has_timeout; int timed_out;
  u32 bitset;
  volatile u32 go;
  pthread_t th; void* tls_save; size_t tls_size; char* tls_at;
  u16 vc[NT], frel[NT], facq[NT];
  u32 consecutive;
} Thr;

typedef struct { u8 chosen, n, running_enabled, tid; u32 kind; } Dec;

typedef struct {
  int active, nthreads, cur, track, finished;
  volatile u32 main_go;
  u64 steps, now, wake_seq, vclock_ns, clock_step_ns; u64 horizon;
  int ncpu, prog;
  Thr t[NT];
  // decisions of this execution
  u32 ndec, prefix_len; Dec dec[MAXDEC]; Dec prev[MAXDEC];
  int bound; u32 preempts;
  // arena
  u64 arena_top, arena_base_top; char* arena_save;
  // data segment snapshot
  char* data_lo; size_t data_len; char* data_save;
  size_t tls_size;
  u16 gen; u32 sgen;
  Cell* sh_arena; Cell* sh_data;
  Sync sync[1<<SYNC_BITS];
  // violation
  int viol; char vmsg[2048];
  // stats
  u64 execs, transitions, decisions, maxsteps, nodes, outcomes_n, blocked_execs, preempted_execs;
  u64 outcomes[4096];
  const char* harness; const char* replay_path;
  void (*body)(int); 
  u64 spurious;
  // periodic schedules: slice lengths, and that of the very first slice
  u32 per[NT], per0; int per_first; u32 nsl;
} RT;
static RT* R;
static __thread int mc_tid = -1;

// provided by rust
extern void mch_setup(void);
extern void mch_thread(int tid);
extern int  mch_finish(u64* outcome, char* msg, size_t len); // 0 ok
extern void mch_warm(int tid);

static void die(const char* m){ fprintf(stderr,"mc engine error: %s\n",m); _exit(3); }

// ---------------------------------------------------------------- allocator
void* mc_alloc(size_t size, size_t align){
  if(align<16) align=16;
  u64 top = R? R->arena_top : 0;
  if(!R) die("alloc before init");
  u64 p=(top+align-1)&~(u64)(align-1);
  // 16 byte gap so that neighbouring objects never share a shadow cell group
  if(p+size+16>ARENA_BASE+ARENA_SIZE) die("arena exhausted");
  R->arena_top=p+size+16;
  return (void*)p;
}
static inline Cell* cell_of(u64 a){
  if(a-ARENA_BASE<ARENA_SIZE) return R->sh_arena+(a-ARENA_BASE);
  if(a-(u64)R->data_lo<R->data_len) return R->sh_data+(a-(u64)R->data_lo);
  return NULL;
}
static void violation(int kind,const char*fmt,...);
static inline Cell* fresh(Cell*c){ if(c->gen!=R->gen){ memset(c,0,sizeof *c); c->gen=R->gen; } return c; }
static inline int tracking(void){ return R&&R->active&&R->track&&mc_tid>=0; }

#define F_FREED 1
static void report_race(const char*what,u64 a,int other,void*pc){
  violation(V_RACE,"data race: %s at 0x%llx by thread %d conflicts with an unordered access by thread %d (pc %p)",what,(unsigned long long)a,mc_tid,other,pc);
}
static inline void chk_plain(u64 a,size_t n,int wr,void*pc){
  if(!tracking()||!n) return;
  int t=mc_tid; Thr*T=&R->t[t];
  Cell*c=cell_of(a); if(!c) return;
  for(size_t i=0;i<n;i++){
    Cell*k=fresh(c+i);
    if(k->flags&F_FREED){ violation(V_UAF,"use after free at 0x%llx by thread %d (pc %p)",(unsigned long long)(a+i),t,pc); return; }
    u16 me=T->vc[t];
    if(wr){ if(k->wtid==t+1&&k->wclk==me) continue; } else if(k->r[t]==me) continue;
    if(k->wclk && k->wtid!=t+1 && k->wclk>T->vc[k->wtid-1]){ report_race(wr?"write":"read",a+i,k->wtid-1,pc); return; }
    for(int o=0;o<NT;o++) if(o!=t){
      if(k->aw[o]>T->vc[o]){ report_race(wr?"write (vs atomic write)":"read (vs atomic write)",a+i,o,pc); return; }
      if(wr){
        if(k->r[o]>T->vc[o]){ report_race("write (vs read)",a+i,o,pc); return; }
        if(k->ar[o]>T->vc[o]){ report_race("write (vs atomic read)",a+i,o,pc); return; }
      }
    }
    if(wr){ k->wtid=t+1; k->wclk=me; } else k->r[t]=me;
  }
}
static inline void chk_atomic(u64 a,size_t n,int wr,void*pc){
  if(!tracking()) return;
  int t=mc_tid; Thr*T=&R->t[t];
  Cell*c=cell_of(a); if(!c) return;
  for(size_t i=0;i<n;i++){
    Cell*k=fresh(c+i);
    if(k->flags&F_FREED){ violation(V_UAF,"atomic use after free at 0x%llx by thread %d (pc %p)",(unsigned long long)(a+i),t,pc); return; }
    if(k->wclk && k->wtid!=t+1 && k->wclk>T->vc[k->wtid-1]){ report_race(wr?"atomic write (vs write)":"atomic read (vs write)",a+i,k->wtid-1,pc); return; }
    if(wr) for(int o=0;o<NT;o++) if(o!=t && k->r[o]>T->vc[o]){ report_race("atomic write (vs read)",a+i,o,pc); return; }
    u16 me=T->vc[t];
    if(wr) k->aw[t]=me; else k->ar[t]=me;
  }
}
void mc_dealloc(void*p,size_t n){
  if(!tracking()) return;
  chk_plain((u64)p,n,1,__builtin_return_address(0));
  Cell*c=cell_of((u64)p); if(!c) return;
  for(size_t i=0;i<n;i++) fresh(c+i)->flags|=F_FREED;
}

// ---------------------------------------------------------------- violation reporting
static void write_replay(void){
  if(!R->replay_path) return;
  FILE*f=fopen(R->replay_path,"w"); if(!f){ fprintf(stderr,"cannot write %s\n",R->replay_path); return; }
  fprintf(f,"harness %s\nbound %d\nkind %d\nmessage %s\nchoices",R->harness,R->bound,R->viol,R->vmsg);
  for(u32 i=0;i<R->ndec;i++) fprintf(f," %d",R->dec[i].chosen);
  fprintf(f,"\nthreads");
  for(u32 i=0;i<R->ndec;i++) fprintf(f," %d",R->dec[i].tid);
  fprintf(f,"\n"); fclose(f);
}
static void violation(int kind,const char*fmt,...){
  if(R->viol) return;
  R->active=0;
  R->viol=kind;
  va_list ap; va_start(ap,fmt); vsnprintf(R->vmsg,sizeof R->vmsg,fmt,ap); va_end(ap);
  for(char*p=R->vmsg;*p;p++) if(*p=='\n') *p=' ';
  if(kind==V_DIVERGE){ fprintf(stderr,"mc engine error: %s\n",R->vmsg); _exit(3); }
  write_replay();
  static const char*names[]={"none","deadlock","livelock","race","use-after-free","crash","oracle","diverge"};
  printf("MCVIOL kind=%s harness=%s execs=%llu preemptions=%u msg=%s\n",names[kind],R->harness,(unsigned long long)R->execs,R->preempts,R->vmsg);
  fflush(stdout);
  _exit(1);
}
// called by harness code inside a model thread (unexpected panic etc.)
void mc_fail(const char*msg){ violation(V_ORACLE,"%s",msg); }

static void on_signal(int s){
  if(R&&!R->viol){ R->active=0; R->viol=s==SIGPROF?V_LIVELOCK:V_CRASH;
    if(s==SIGPROF) snprintf(R->vmsg,sizeof R->vmsg,"one execution used 10 s of processor time: a thread runs forever"); else snprintf(R->vmsg,sizeof R->vmsg,"process crashed with signal %d in thread %d",s,mc_tid);
    write_replay(); printf("MCVIOL kind=%s harness=%s execs=%llu preemptions=%u msg=%s\n",s==SIGPROF?"livelock":"crash",R->harness,(unsigned long long)R->execs,R->preempts,R->vmsg); fflush(stdout); }
  _exit(1);
}

// ---------------------------------------------------------------- scheduler
static void wait_go(volatile u32*w){ while(__atomic_load_n(w,__ATOMIC_ACQUIRE)==0) futex_wait_raw(w,0); __atomic_store_n(w,0,__ATOMIC_RELAXED); }
static void set_go(volatile u32*w){ __atomic_store_n(w,1,__ATOMIC_RELEASE); futex_wake_raw(w); }

// choose next thread to run; `self` = thread at the point (or -1), self_ok = may continue
static int pick(int self,int self_ok,u32 kind){
  int list[NT],n=0;
  int others_free=0;
  for(int i=0;i<R->nthreads;i++) if(i!=self && R->t[i].state==TS_RUN && !R->t[i].yielded) others_free++;
  int force=0;
  if(self>=0&&self_ok){
    if(R->t[self].yielded && others_free) force=1;          // yielding: somebody else runs
    else if(R->t[self].consecutive>3000 && others_free){ force=1; R->t[self].consecutive=0; } // fairness for pure spinners
  }
  int running_enabled = self>=0&&self_ok&&!force;
  if(running_enabled) list[n++]=self;
  for(int i=0;i<R->nthreads;i++) if(i!=self && R->t[i].state==TS_RUN && !R->t[i].yielded) list[n++]=i;
  if(n==0){ // only yielded ones left
    for(int i=0;i<R->nthreads;i++) if(R->t[i].state==TS_RUN) { R->t[i].yielded=0; if(i!=self||self_ok) list[n++]=i; }
  }
  if(n==0){ // timeouts fire only when nothing else can run
    for(int i=0;i<R->nthreads;i++) if(R->t[i].state==TS_BLOCKED && R->t[i].has_timeout){ R->t[i].state=TS_RUN; R->t[i].timed_out=1; list[n++]=i; break; }
  }
  if(n==0) return -1;
  int c=0;
  if(n>1){
    u32 i=R->ndec;
    if(i>=MAXDEC) { violation(V_LIVELOCK,"execution has more than %d scheduling decisions",MAXDEC); return -1; }
    if(i<R->prefix_len){
      Dec*p=&R->prev[i];
      if(p->n!=n||p->running_enabled!=running_enabled||(p->kind!=kind&&p->kind!=0xffffffff)){ 
        if(p->kind!=0xffffffff||p->chosen>=n){ violation(V_DIVERGE,"replay diverged at decision %u: n=%d/%d kind=%u/%u",i,n,p->n,kind,p->kind); return -1; } }
      c=p->chosen;
    } else if(R->per[0]){
      if(self<0){ for(int k=0;k<n;k++) if(list[k]==R->per_first) c=k; }
      else if(running_enabled){
        if(R->t[self].consecutive>(R->nsl?R->per[self]:R->per0)){ // the slice is over: the next one in turn
          c=1; for(int k=1;k<n;k++) if(list[k]>self){ c=k; break; }
        }
      } else for(int k=0;k<n;k++) if(list[k]>self){ c=k; break; }
    }
    R->dec[i]=(Dec){.chosen=c,.n=n,.running_enabled=running_enabled,.tid=list[c],.kind=kind};
    R->ndec++;
    if(running_enabled&&c>0) R->preempts++;
  }
  return list[c];
}
static void finish_all(void){ set_go(&R->main_go); }
static void deadlock_report(void){
  char b[600]; int o=0; b[0]=0;
  for(int i=0;i<R->nthreads;i++) o+=snprintf(b+o,sizeof b-o," thread%d=%s@0x%llx",i,R->t[i].state==TS_DONE?"done":R->t[i].state==TS_BLOCKED?"blocked":"run",(unsigned long long)R->t[i].wait_addr);
  violation(V_DEADLOCK,"deadlock: no thread can run:%s",b);
}
static void switch_to(int self,int next){
  // a step by `next`: threads that yielded may run again
  R->cur=next;
  if(next==self) return;
  R->t[next].consecutive=1; R->nsl++;
  set_go(&R->t[next].go);
  if(self>=0&&R->t[self].state!=TS_DONE) wait_go(&R->t[self].go);
}
static inline void point(u32 kind){
  if(!R||!R->active) return;
  int t=mc_tid; if(t<0) return;
  R->steps++; R->now++; R->transitions++;
  R->t[t].consecutive++;
  if(R->steps>R->horizon){ violation(V_LIVELOCK,"execution exceeded the horizon of %llu steps",(unsigned long long)R->horizon); return; }
  int next=pick(t,1,kind);
  if(next<0) { deadlock_report(); return; }
  if(next!=t) { switch_to(t,next); }
  // this thread is about to make a step: un-yield the others
  for(int i=0;i<R->nthreads;i++) if(i!=t) R->t[i].yielded=0;
  R->t[t].yielded=0;
}
u64 mc_now(void){ if(!R) return 0; return ++R->now; }
int mc_self(void){ return mc_tid; }

// block current thread; returns when made runnable and scheduled
static void block_here(u64 addr,int has_timeout){
  int t=mc_tid;
  R->t[t].state=TS_BLOCKED; R->t[t].wait_addr=addr; R->t[t].wait_seq=++R->wake_seq; R->t[t].has_timeout=has_timeout; R->t[t].timed_out=0;
  int next=pick(t,0,0x1000);
  if(next<0){ deadlock_report(); return; }
  if(next==t){ return; } // own timeout fired
  R->cur=next; R->t[next].consecutive=1; R->nsl++; set_go(&R->t[next].go);
  wait_go(&R->t[t].go);
  for(int i=0;i<R->nthreads;i++) if(i!=t) R->t[i].yielded=0;
}
static int wake_addr(u64 addr,int n,u32 bitset){
  int woken=0;
  while(woken<n){
    int best=-1;
    for(int i=0;i<R->nthreads;i++) if(R->t[i].state==TS_BLOCKED&&R->t[i].wait_addr==addr&&(R->t[i].bitset&bitset)&&(best<0||R->t[i].wait_seq<R->t[best].wait_seq)) best=i;
    if(best<0) break;
    R->t[best].state=TS_RUN; R->t[best].wait_addr=0; woken++;
  }
  return woken;
}

// ---------------------------------------------------------------- interposed libc
static inline int controlled(void){ return R&&R->active&&mc_tid>=0; }
long syscall(long n,...){
  va_list ap; va_start(ap,n);
  long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long);
  va_end(ap);
  if(n==SYS_futex&&controlled()){
    int op=(int)b&FUTEX_CMD_MASK;
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
      point(0x200);
      if(*(volatile u32*)a!=(u32)c){ errno=EAGAIN; return -1; }
      R->t[mc_tid].bitset = op==FUTEX_WAIT_BITSET?(u32)f:0xffffffffu;
      int t=mc_tid;
      block_here((u64)a,d!=0);
      if(R->t[t].timed_out){ R->t[t].timed_out=0; errno=ETIMEDOUT; return -1; }
      return 0;
    }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){
      point(0x201);
      return wake_addr((u64)a,(int)c,op==FUTEX_WAKE_BITSET?(u32)f:0xffffffffu);
    }
    die("unsupported futex operation");
  }
  long r=raw6(n,a,b,c,d,e,f);
  if(r<0&&r>-4096){ errno=-r; return -1; }
  return r;
}
int sched_yield(void){
  if(controlled()){ R->t[mc_tid].yielded=1; point(0x202); return 0; }
  return (int)raw6(SYS_sched_yield,0,0,0,0,0,0);
}
int nanosleep(const struct timespec*req,struct timespec*rem){
  (void)rem;
  if(controlled()){ R->vclock_ns+=req->tv_sec*1000000000ull+req->tv_nsec; R->t[mc_tid].yielded=1; point(0x203); return 0; }
  return (int)raw6(SYS_nanosleep,(long)req,(long)rem,0,0,0,0);
}
int clock_nanosleep(clockid_t c,int fl,const struct timespec*req,struct timespec*rem){ (void)c;(void)fl; return nanosleep(req,rem); }
int clock_gettime(clockid_t c,struct timespec*ts){
  if(R&&R->vclock_ns){ R->vclock_ns+=R->clock_step_ns; ts->tv_sec=R->vclock_ns/1000000000ull; ts->tv_nsec=R->vclock_ns%1000000000ull; return 0; }
  long r=raw6(SYS_clock_gettime,c,(long)ts,0,0,0,0); if(r<0){ errno=-r; return -1;} return 0;
}
ssize_t getrandom(void*p,size_t n,unsigned fl){ (void)fl; memset(p,0x5a,n); return n; }
int sched_getaffinity(pid_t pid,size_t n,cpu_set_t*set){
  (void)pid; memset(set,0,n); int k=R?R->ncpu:2; for(int i=0;i<k;i++) CPU_SET_S(i,n,set); return 0;
}

// ---------------------------------------------------------------- tsan ABI: plain accesses
#define PC __builtin_return_address(0)
#define RW(n) \
 void __tsan_read##n(void*a){ chk_plain((u64)a,n,0,PC);} \
 void __tsan_write##n(void*a){ chk_plain((u64)a,n,1,PC);} \
 void __tsan_unaligned_read##n(void*a){ chk_plain((u64)a,n,0,PC);} \
 void __tsan_unaligned_write##n(void*a){ chk_plain((u64)a,n,1,PC);} \
 void __tsan_read_write##n(void*a){ chk_plain((u64)a,n,0,PC); chk_plain((u64)a,n,1,PC);} \
 void __tsan_unaligned_read_write##n(void*a){ chk_plain((u64)a,n,0,PC); chk_plain((u64)a,n,1,PC);} \
 void __tsan_volatile_read##n(void*a){ chk_plain((u64)a,n,0,PC);} \
 void __tsan_volatile_write##n(void*a){ chk_plain((u64)a,n,1,PC);} \
 void __tsan_unaligned_volatile_read##n(void*a){ chk_plain((u64)a,n,0,PC);} \
 void __tsan_unaligned_volatile_write##n(void*a){ chk_plain((u64)a,n,1,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,size_t n){ chk_plain((u64)a,n,0,PC); }
void __tsan_write_range(void*a,size_t n){ chk_plain((u64)a,n,1,PC); }
void __tsan_init(void){}
void __tsan_func_entry(void*p){(void)p;}
void __tsan_func_exit(void){}
void __tsan_ignore_thread_begin(void){}
void __tsan_ignore_thread_end(void){}
void __tsan_vptr_update(void*a,void*b){(void)a;(void)b;}
void __tsan_vptr_read(void*a){(void)a;}
void* __tsan_memcpy(void*d,const void*s,size_t n){ chk_plain((u64)s,n,0,PC); chk_plain((u64)d,n,1,PC); return memcpy(d,s,n); }
void* __tsan_memmove(void*d,const void*s,size_t n){ chk_plain((u64)s,n,0,PC); chk_plain((u64)d,n,1,PC); return memmove(d,s,n); }
void* __tsan_memset(void*d,int c,size_t n){ chk_plain((u64)d,n,1,PC); return memset(d,c,n); }

// ---------------------------------------------------------------- tsan ABI: atomics
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static inline int is_acq(int m){ return m==MO_ACQ||m==MO_CONS||m==MO_ACQREL||m==MO_SC; }
static inline int is_rel(int m){ return m==MO_REL||m==MO_ACQREL||m==MO_SC; }
static Sync* sync_of(u64 a){
  u64 h=(a*0x9E3779B97F4A7C15ull)>>(64-SYNC_BITS);
  for(u32 i=0;i<(1u<<SYNC_BITS);i++){
    Sync*s=&R->sync[(h+i)&((1u<<SYNC_BITS)-1)];
    if(s->gen!=R->sgen){ s->gen=R->sgen; s->addr=a; memset(s->l,0,sizeof s->l); return s; }
    if(s->addr==a) return s;
  }
  die("sync table full"); return NULL;
}
static inline void join_vc(u16*a,const u16*b){ for(int i=0;i<NT;i++) if(b[i]>a[i]) a[i]=b[i]; }
static inline void hb_load(u64 a,int mo){
  if(!tracking()) return; Thr*T=&R->t[mc_tid]; Sync*s=sync_of(a);
  if(is_acq(mo)) join_vc(T->vc,s->l); else join_vc(T->facq,s->l);
}
static inline void hb_store(u64 a,int mo){
  if(!tracking()) return; Thr*T=&R->t[mc_tid]; Sync*s=sync_of(a);
  if(is_rel(mo)) memcpy(s->l,T->vc,sizeof s->l); else memcpy(s->l,T->frel,sizeof s->l);
  T->vc[mc_tid]++;
}
static inline void hb_rmw(u64 a,int mo){
  if(!tracking()) return; Thr*T=&R->t[mc_tid]; Sync*s=sync_of(a);
  if(is_acq(mo)) join_vc(T->vc,s->l); else join_vc(T->facq,s->l);
  if(is_rel(mo)) join_vc(s->l,T->vc); else join_vc(s->l,T->frel);
  T->vc[mc_tid]++;
}
static void hb_fence(int mo){
  if(!tracking()) return; Thr*T=&R->t[mc_tid];
  if(is_acq(mo)) join_vc(T->vc,T->facq);
  if(is_rel(mo)) memcpy(T->frel,T->vc,sizeof T->vc);
  T->vc[mc_tid]++;
}
#define ATOMIC(bits,T) \
T __tsan_atomic##bits##_load(const volatile T*a,int mo){ point(1); chk_atomic((u64)a,sizeof(T),0,PC); hb_load((u64)a,mo); return *a; } \
void __tsan_atomic##bits##_store(volatile T*a,T v,int mo){ point(2); chk_atomic((u64)a,sizeof(T),1,PC); hb_store((u64)a,mo); if(controlled()) *a=v; else __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T*a,T v,int mo){ point(3); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); T o; if(controlled()){ o=*a; *a=v; } else o=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T*a,T v,int mo){ point(4); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=o+v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T*a,T v,int mo){ point(5); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=o-v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T*a,T v,int mo){ point(6); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=o&v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T*a,T v,int mo){ point(7); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=o|v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T*a,T v,int mo){ point(8); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=o^v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T*a,T v,int mo){ point(9); chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); if(!controlled()) return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); T o=*a; *a=~(o&v); return o; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T*a,T c,T v,int mo,int fmo){ point(10); \
  if(!controlled()){ T e=c; __atomic_compare_exchange_n(a,&e,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e; } \
  T o=*a; if(o==c){ chk_atomic((u64)a,sizeof(T),1,PC); hb_rmw((u64)a,mo); *a=v; } else { chk_atomic((u64)a,sizeof(T),0,PC); hb_load((u64)a,fmo); } return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T*a,T*c,T v,int mo,int fmo){ T e=*c; T o=__tsan_atomic##bits##_compare_exchange_val(a,e,v,mo,fmo); if(o==e) return 1; *c=o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T*a,T*c,T v,int mo,int fmo){ return __tsan_atomic##bits##_compare_exchange_strong(a,c,v,mo,fmo); }
ATOMIC(8,u8) ATOMIC(16,u16) ATOMIC(32,u32) ATOMIC(64,u64)
// 16 byte atomics: single threaded emulation is enough (one model thread runs at a time)
u128 __tsan_atomic128_load(const volatile u128*a,int mo){ point(1); chk_atomic((u64)a,16,0,PC); hb_load((u64)a,mo); return *a; }
void __tsan_atomic128_store(volatile u128*a,u128 v,int mo){ point(2); chk_atomic((u64)a,16,1,PC); hb_store((u64)a,mo); *a=v; }
u128 __tsan_atomic128_exchange(volatile u128*a,u128 v,int mo){ point(3); chk_atomic((u64)a,16,1,PC); hb_rmw((u64)a,mo); u128 o=*a; *a=v; return o; }
u128 __tsan_atomic128_compare_exchange_val(volatile u128*a,u128 c,u128 v,int mo,int fmo){ point(10); (void)fmo; chk_atomic((u64)a,16,1,PC); hb_rmw((u64)a,mo); u128 o=*a; if(o==c) *a=v; return o; }
void __tsan_atomic_thread_fence(int mo){ point(11); hb_fence(mo); }
void __tsan_atomic_signal_fence(int mo){ (void)mo; }

// ---------------------------------------------------------------- threads
static char* own_tls(void){ char*fs; __asm__("mov %%fs:0,%0":"=r"(fs)); return fs-R->tls_size; }
static void* thread_main(void*arg){
  int t=(int)(long)arg; mc_tid=t;
  // warm up (lazily created per-thread data), then save the TLS image
  R->t[t].tls_at=own_tls(); R->t[t].tls_size=R->tls_size;
  wait_go(&R->t[t].go);
  mch_warm(t);
  R->t[t].tls_save=mmap(0,(R->tls_size+4095)&~4095ul,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  memcpy(R->t[t].tls_save,R->t[t].tls_at,R->tls_size);
  set_go(&R->main_go);
  for(;;){
    wait_go(&R->t[t].go);
    memcpy(R->t[t].tls_at,R->t[t].tls_save,R->tls_size);
    mch_thread(t);
    // finished
    R->t[t].state=TS_DONE; R->finished++;
    if(R->finished==R->nthreads){ R->active=0; finish_all(); continue; }
    for(int i=0;i<R->nthreads;i++) if(i!=t) R->t[i].yielded=0;
    int next=pick(t,0,0x300);
    if(next<0){ deadlock_report(); continue; }
    R->cur=next; R->t[next].consecutive=1; R->nsl++; set_go(&R->t[next].go);
  }
  return 0;
}

// ---------------------------------------------------------------- set-up
static int phdr_cb(struct dl_phdr_info*i,size_t s,void*d){
  (void)s; (void)d;
  if(i->dlpi_name&&i->dlpi_name[0]) return 0;   // main executable only
  u64 lo=0,hi=0,rlo=0,rhi=0;
  for(int k=0;k<i->dlpi_phnum;k++){
    const ElfW(Phdr)*p=&i->dlpi_phdr[k]; u64 a=i->dlpi_addr+p->p_vaddr;
    if(p->p_type==PT_LOAD&&(p->p_flags&PF_W)){ if(!lo||a<lo) lo=a; if(a+p->p_memsz>hi) hi=a+p->p_memsz; }
    if(p->p_type==PT_GNU_RELRO){ rlo=a; rhi=a+p->p_memsz; }
    if(p->p_type==PT_TLS){ u64 al=p->p_align?p->p_align:1; R->tls_size=(p->p_memsz+al-1)&~(al-1); }
  }
  if(rhi>=lo&&rlo<=lo) lo=(rhi+4095)&~4095ull;
  R->data_lo=(char*)lo; R->data_len=hi-lo;
  return 1;
}
static void* resv(u64 at,size_t n){
  void*p=mmap((void*)at,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(at?MAP_FIXED_NOREPLACE:0),-1,0);
  if(p==MAP_FAILED) die("mmap"); return p;
}
__attribute__((constructor(101))) static void mc_boot(void){
  if(!getenv("MC_NOASLR")){
    int p=personality(0xffffffff);
    if(!(p&ADDR_NO_RANDOMIZE)&&personality(p|ADDR_NO_RANDOMIZE)>=0){
      setenv("MC_NOASLR","1",1);
      // re-exec with the same arguments
      static char buf[65536]; static char*av[256]; int n=0;
      FILE*f=fopen("/proc/self/cmdline","r"); size_t len=f?fread(buf,1,sizeof buf-1,f):0; if(f) fclose(f);
      for(size_t i=0;i<len&&n<255;){ av[n++]=buf+i; i+=strlen(buf+i)+1; }
      extern char**environ;
      execve("/proc/self/exe",av,environ);
    }
  }
  RT*r=mmap(0,sizeof(RT),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(r==MAP_FAILED) _exit(3);
  r->ncpu=2; r->arena_top=ARENA_BASE; 
  resv(ARENA_BASE,ARENA_SIZE);
  R=r;
}

// allocations between mc_region(1) and mc_region(0) are never changed afterwards and not restored
void mc_region(int on){ static u64 keep; if(on){ keep=R->arena_top; R->arena_top=ARENA_BASE+ARENA_SIZE/2; } else R->arena_top=keep; }
u64 mc_param_ncpu(int n){ R->ncpu=n; return 0; }
void mc_advance_clock(u64 ns){ R->vclock_ns+=ns; }

static void* main_tls_save; static char* main_tls_at;
static void reset_execution(void){
  memcpy(R->data_lo,R->data_save,R->data_len);
  memcpy(main_tls_at,main_tls_save,R->tls_size);
  memcpy((void*)ARENA_BASE,R->arena_save,R->arena_base_top-ARENA_BASE);
  R->arena_top=R->arena_base_top;
  R->gen++; if(R->gen==0){ // tags wrapped: drop all shadow memory
    madvise(R->sh_arena,ARENA_SIZE*sizeof(Cell),MADV_DONTNEED); madvise(R->sh_data,R->data_len*sizeof(Cell),MADV_DONTNEED); R->gen=1; }
  R->sgen++;
  R->steps=0; R->now=0; R->wake_seq=0; R->vclock_ns=1000000000ull; R->ndec=0; R->preempts=0; R->nsl=0; R->finished=0;
  for(int i=0;i<NT;i++){ Thr*T=&R->t[i]; T->state=i<R->nthreads?TS_RUN:TS_DONE; T->yielded=0; T->wait_addr=0; T->has_timeout=0; T->timed_out=0; T->consecutive=0;
    memset(T->vc,0,sizeof T->vc); memset(T->frel,0,sizeof T->frel); memset(T->facq,0,sizeof T->facq); T->vc[i]=1; }
}
static void add_outcome(u64 o){
  o|=1; u64 h=o*0x9E3779B97F4A7C15ull>>52;
  for(int i=0;i<4096;i++){ u64*p=&R->outcomes[(h+i)&4095]; if(*p==o) return; if(!*p){ if(R->outcomes_n<4000){ *p=o; R->outcomes_n++; } return; } }
}
static void watchdog(int secs){ struct itimerval v; memset(&v,0,sizeof v); v.it_value.tv_sec=secs; setitimer(ITIMER_PROF,&v,0); }
static void run_one(void){
  reset_execution();
  watchdog(10);
  mch_setup();
  R->active=1;
  int first=pick(-1,0,0x400);
  R->cur=first; set_go(&R->t[first].go);
  wait_go(&R->main_go);
  R->active=0;
  R->execs++; R->decisions+=R->ndec; if(R->steps>R->maxsteps) R->maxsteps=R->steps;
  if(R->preempts) R->preempted_execs++;
  u64 out=0; char msg[1500]; msg[0]=0;
  int rc=mch_finish(&out,msg,sizeof msg);
  if(rc) { violation(V_ORACLE,"%s",msg); }
  add_outcome(out);
}
static double now_s(void){ struct timespec t; raw6(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t,0,0,0,0); return t.tv_sec+t.tv_nsec*1e-9; }
static u64 fingerprint(void){
  u64 h=1469598103934665603ull;
  for(u32 i=0;i<R->ndec;i++){ h=(h^R->dec[i].kind)*1099511628211ull; h=(h^(R->dec[i].n*16+R->dec[i].tid))*1099511628211ull; }
  return h^R->steps;
}

void mc_init(void){
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_signal; sa.sa_flags=SA_ONSTACK;
  stack_t ss; ss.ss_sp=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,0);
  sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGPROF,&sa,0);
  cpu_set_t cs; CPU_ZERO(&cs); { // pin to one of the CPUs we may use
    unsigned long mask[16]; memset(mask,0,sizeof mask); long r=raw6(SYS_sched_getaffinity,0,sizeof mask,(long)mask,0,0,0);
    int cpus[1024],n=0; for(int i=0;i<r*8&&i<1024;i++) if(mask[i/64]>>(i%64)&1) cpus[n++]=i;
    const char*pin=getenv("MC_CPU"); int k=pin?atoi(pin):getpid();
    if(n){ CPU_SET(cpus[k%n],&cs); sched_setaffinity(0,sizeof cs,&cs); } }
  dl_iterate_phdr(phdr_cb,0);
  R->sh_arena=resv(0,ARENA_SIZE*sizeof(Cell)); R->sh_data=resv(0,R->data_len*sizeof(Cell));
  R->vclock_ns=1000000000ull; R->clock_step_ns=1;
  mch_warm(-1);
  for(int i=0;i<NT;i++){
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20);
    if(pthread_create(&R->t[i].th,&at,thread_main,(void*)(long)i)) die("pthread_create");
    set_go(&R->t[i].go); wait_go(&R->main_go);
  }
  main_tls_at=own_tls(); main_tls_save=resv(0,R->tls_size+4096); memcpy(main_tls_save,main_tls_at,R->tls_size);
  // snapshot
  R->data_save=resv(0,R->data_len);
  R->arena_base_top=R->arena_top; R->arena_save=resv(0,R->arena_base_top-ARENA_BASE+4096);
  memcpy(R->arena_save,(void*)ARENA_BASE,R->arena_base_top-ARENA_BASE);
  memcpy(R->data_save,R->data_lo,R->data_len);
}
double mc_wall(void){ return now_s(); }
int mc_prog(void){ return R->prog; }


// Explore all schedules of program `prog` with at most `bound` preemptions, within time_s seconds.
// Returns the number of executions, or minus that number when the time ran out.
long mc_explore(int prog,const char*harness,int nthreads,int bound,double time_s,int track,u64 horizon,u64 clock_step,const char*replay_path,const int*replay,int nreplay){
  R->prog=prog; R->harness=harness; R->nthreads=nthreads; R->track=track; R->horizon=horizon; R->replay_path=replay_path; R->clock_step_ns=clock_step;
  if(nthreads>NT) die("too many threads");
  R->outcomes_n=0; memset(R->outcomes,0,sizeof R->outcomes); R->maxsteps=0; R->prefix_len=0;
  double t0=now_s();
  if(replay){
    R->prefix_len=nreplay; for(int i=0;i<nreplay;i++) R->prev[i]=(Dec){.chosen=replay[i],.kind=0xffffffff};
    R->bound=99; run_one();
    printf("MCREPLAY ok: no violation on this schedule\n"); fflush(stdout); return 0;
  }
  memset(R->per,0,sizeof R->per);
  // determinism: the default schedule twice
  if(bound==0){ run_one(); u64 f1=fingerprint(); run_one(); if(fingerprint()!=f1) die("default schedule is not deterministic"); }
  int capped=0;
  R->bound=bound; R->prefix_len=0; R->nodes=0; R->execs=0; R->transitions=0; R->decisions=0; R->preempted_execs=0; u64 full=0;
  char sample[160]; sample[0]=0;
  for(;;){
    u32 common=R->prefix_len;
    run_one();
    R->nodes += R->ndec - (common? common-1:0);
    if(R->ndec<R->prefix_len) die("replay ended early");
    // count preemptions along the path and find the deepest decision with an allowed alternative
    u32 p=0, k=0xffffffff;
    for(u32 i=0;i<R->ndec;i++){
      Dec*d=&R->dec[i];
      if(d->chosen+1<d->n){ u32 cost=p+(d->running_enabled?1:0); if(cost<=(u32)bound) k=i; }
      if(d->running_enabled&&d->chosen>0) p++;
    }
    if(p==(u32)bound){ full++; int o=0; if(full<=3) for(u32 i=0;i<R->ndec&&o<150;i++) o+=snprintf(sample+o,sizeof sample-o,"%d",R->dec[i].tid); }
    if(k==0xffffffff) break;
    memcpy(R->prev,R->dec,sizeof(Dec)*(k+1)); R->prev[k].chosen++; R->prefix_len=k+1;
    if(now_s()-t0>time_s){ capped=1; break; }
  }
  // no execution with exactly `bound` preemptions: there is none with more either
  printf("MCSTAT harness=%s bound=%d execs=%llu nodes=%llu transitions=%llu maxsteps=%llu outcomes=%llu full=%llu capped=%d exhausted=%d threads=%d sample=%s\n",
   R->harness,bound,(unsigned long long)R->execs,(unsigned long long)R->nodes,(unsigned long long)R->transitions,(unsigned long long)R->maxsteps,
   (unsigned long long)R->outcomes_n,(unsigned long long)full,capped,!capped&&full==0,R->nthreads,sample);
  fflush(stdout);
  return capped? -1 : full==0? 1 : 0;
}

// Run every periodic schedule of program `prog`: thread i runs slices of per[i] <= period steps in turn, the first slice
// is per0 <= period steps long and belongs to any thread. Returns the number of executions, or minus it when the time ran out.
long mc_periodic(int prog,const char*harness,int nthreads,int period,double time_s,int track,u64 horizon,u64 clock_step,const char*replay_path){
  R->prog=prog; R->harness=harness; R->nthreads=nthreads; R->track=track; R->horizon=horizon; R->replay_path=replay_path; R->clock_step_ns=clock_step;
  R->outcomes_n=0; memset(R->outcomes,0,sizeof R->outcomes); R->maxsteps=0; R->prefix_len=0; R->bound=99;
  R->nodes=0; R->execs=0; R->transitions=0; R->decisions=0; R->preempted_execs=0;
  double t0=now_s(); int capped=0; u64 maxp=0;
  for(int i=0;i<nthreads;i++) R->per[i]=1;
  for(;!capped;){
    for(R->per_first=0;R->per_first<nthreads&&!capped;R->per_first++) for(u32 o=1;o<=(u32)period;o++){
      R->per0=o; run_one(); R->nodes+=R->ndec; if(R->preempts>maxp) maxp=R->preempts;
      if(now_s()-t0>time_s){ capped=1; break; }
    }
    int i=0; while(i<nthreads&&++R->per[i]>(u32)period) R->per[i++]=1;
    if(i==nthreads) break;
  }
  long n=R->execs;
  printf("MCPER harness=%s period=%d execs=%llu nodes=%llu transitions=%llu maxsteps=%llu outcomes=%llu maxpreempt=%llu capped=%d\n",
   R->harness,period,(unsigned long long)R->execs,(unsigned long long)R->nodes,(unsigned long long)R->transitions,(unsigned long long)R->maxsteps,
   (unsigned long long)R->outcomes_n,(unsigned long long)maxp,capped);
  fflush(stdout);
  memset(R->per,0,sizeof R->per);
  return capped?-n:n;
}
