// Deterministic simulation runtime linked into the unmodified carcara binaries.
//
// It owns every source of nondeterminism of the process: which thread runs (real threads, released
// one at a time at every atomic operation and blocking call), clocks, randomness, heap addresses,
// files, standard streams, pipes and child processes. One run is a forked child whose behaviour is
// a pure function of the configuration found in the shared mapping.
//
// Without SIM_SHM in the environment everything passes through to the real system.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "proto.h"

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)
#define NOI __attribute__((noinline,noipa)) /* other threads change the state below while these run */

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
static long rawe(long n,long a,long b,long c,long d,long e,long f){ long r=raw6(n,a,b,c,d,e,f); if(r<0&&r>-4096){errno=-r;return -1;} return r; }

// ---------------------------------------------------------------- shared output
enum { C_READS, C_SHORT_READ, C_READ_EINTR, C_READ_ERR, C_READ_EOF, C_READ_FLIP, C_OPENS, C_OPEN_ERR,
  C_WRITES, C_SHORT_WRITE, C_WRITE_EINTR, C_WRITE_ERR, C_CREATES, C_CREATE_ERR, C_SPAWNS, C_SPAWN_ERR,
  C_PIPE_ERR, C_THREADS, C_THREAD_FAIL, C_ALLOCS, C_ALLOC_FAIL, C_FUTEX_WAIT, C_FUTEX_WAKE, C_SPURIOUS,
  C_CLOCK_READS, C_CLOCK_JUMPS, C_RANDOM_READS, C_PREEMPT, C_BLOCK_SWITCH, C_STALLED_PICKS, C_ATOMICS,
  C_HOT, C_SOLVER_OPS, C_SOLVER_EXIT, C_SOLVER_KILL, C_SOLVER_HANG, C_EPIPE, C_PIPE_FULL, C_ZOMBIES, C_WAITS,
  C_YIELDS, C_SLEEPS, C_TIMEOUTS, C_STAT_ERR, C_READDIR_ERR, C_MAXLIVE, C_HASH_FAIL, C_WAIT_EINTR, C_EVENTS_AT_MT,
  C_PIPEREAD_ERR, C_UNEXPECTED, C_MAXFD /* most descriptors open at once */, C_MAXACT /* most solver processes alive at once */,
  C_MINSTACK /* smallest stack a thread was given */, C_PEAKMEM /* most heap in use at once, above what was in use when the first file was opened */, C_N };
#define MAXSTREAM 512
struct out {
  u64 magic, end_kind, end_info, wait_status;
  u64 events, switches, sched_hash, simtime, nswitch, nstream, datalen, overflow;
  u64 obj_hash, spare[3];
  u64 c[64];
  char name[MAXSTREAM][120];
  u64 slen[MAXSTREAM];
  char msg[4096];
};
enum { END_NONE=0, END_DEADLOCK=2, END_LIMIT=3, END_INTERNAL=4, END_ALLOC_ABORT=5, END_KILLED=6 };
#define SWITCH_CAP (1u<<18)
static u8 *g_in; static struct out *O; static u64 *g_sw; static u8 *g_data; static size_t g_datacap;
static int g_active; // g_active: simulation in force in this process

static NOI __attribute__((noreturn)) void finish(int kind,u64 info,const char*fmt,...) {
  O->end_kind=kind; O->end_info=info;
  va_list ap; va_start(ap,fmt);
  size_t l=strlen(O->msg); if(l<sizeof O->msg-200) vsnprintf(O->msg+l,sizeof O->msg-l,fmt,ap);
  va_end(ap);
  raw6(SYS_exit_group,77,0,0,0,0,0); __builtin_unreachable();
}
#define BUG(...) finish(END_INTERNAL,__LINE__,__VA_ARGS__)

static int new_stream(const char*name){
  if(O->nstream>=MAXSTREAM) BUG("too many streams");
  int i=O->nstream++; snprintf(O->name[i],120,"%s",name); O->slen[i]=0; return i;
}
// record: stream, length, offset (~0: append); length 0xffffffff: truncate to offset
static void stream_at(int s,const void*p,size_t n,u64 off){
  if(!n) return;
  O->slen[s]+=n;
  if(O->datalen+n+16>g_datacap){O->overflow=1;return;}
  u32 h[2]={(u32)s,(u32)n}; memcpy(g_data+O->datalen,h,8); memcpy(g_data+O->datalen+8,&off,8); memcpy(g_data+O->datalen+16,p,n); O->datalen+=16+n;
}
static void stream_put(int s,const void*p,size_t n){ stream_at(s,p,n,~0ull); }
static void stream_trunc(int s,u64 len){ if(O->datalen+16>g_datacap){O->overflow=1;return;} u32 h[2]={(u32)s,0xffffffffu}; memcpy(g_data+O->datalen,h,8); memcpy(g_data+O->datalen+8,&len,8); O->datalen+=16; }

// ---------------------------------------------------------------- PRNG
struct rng{u64 s;};
static inline u64 rnext(struct rng*r){ u64 z=(r->s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
static inline u64 rbelow(struct rng*r,u64 n){ return n? rnext(r)%n:0; }
static struct rng R_sched,R_aux,R_io,R_clock,R_hash,R_layout;
static u64 P[P_NPARAMS];

// ---------------------------------------------------------------- allocator (deterministic addresses)
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (6ull<<30)
static u8 *a_cur,*a_end; static int a_lock; static int a_ready;
#define NCLS 160
struct hdr{u32 cls; u32 magic; u64 size;};
struct fnode{struct fnode*next;};
static struct fnode*a_free[NCLS]; static u64 a_clsz[NCLS]; static int a_ncls;
static u64 a_count; // allocations since start of main
static void a_init(void){
  void*p=(void*)raw6(SYS_mmap,ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(p!=(void*)ARENA_BASE) raw6(SYS_exit_group,78,0,0,0,0,0);
  a_cur=p; a_end=a_cur+ARENA_SIZE;
  u64 s=16; a_ncls=0;
  while(a_ncls<NCLS && s<(4ull<<30)){ a_clsz[a_ncls++]=s; if(s<512) s+=16; else {u64 b=1ull<<(63-__builtin_clzll(s)); s+=b/4; s=(s+15)&~15ull;} }
  a_ready=1;
}
static inline int cls_of(u64 n){
  if(n<=512) return n?(int)((n-1)>>4):0;
  int lo=31,hi=a_ncls-1; while(lo<hi){int m=(lo+hi)/2; if(a_clsz[m]>=n)hi=m; else lo=m+1;} return lo;
}
static inline void alock(void){ while(__atomic_exchange_n(&a_lock,1,__ATOMIC_ACQUIRE)) ; }
static inline void aunlock(void){ __atomic_store_n(&a_lock,0,__ATOMIC_RELEASE); }
static NOI int alloc_fault(size_t n){
  if(n<P[P_ALLOC_FAIL_MIN]) return 0;
  if(++a_count==P[P_ALLOC_FAIL_AT]){O->c[C_ALLOC_FAIL]++; return 1;}
  return 0;
}
static void*own_malloc(size_t n,size_t align){ /* the simulator's own memory: never fails on purpose */
  if(!a_ready) a_init();
  if(n>(3ull<<30)) {errno=ENOMEM;return 0;}
  alock();
  u8*p;
  if(align<=16){
    int c=cls_of(n);
    int from_free=a_free[c]!=0;
    if(from_free && P[P_LAYOUT_MODE]>=2 && g_active && rbelow(&R_layout,4)==0) from_free=0;
    if(from_free){ struct fnode*f=a_free[c]; a_free[c]=f->next; p=(u8*)f; }
    else {
      if(P[P_LAYOUT_MODE]>=1 && g_active && rbelow(&R_layout,8)==0) a_cur+=16*(1+rbelow(&R_layout,64));
      u64 sz=a_clsz[c];
      if(a_cur+sz+32>a_end){aunlock();errno=ENOMEM;return 0;}
      struct hdr*h=(struct hdr*)a_cur; h->cls=c; h->magic=0x51a110c; h->size=sz; p=a_cur+16; a_cur+=16+sz;
    }
  } else {
    u64 q=((u64)a_cur+16+align-1)&~(align-1);
    u64 sz=(n+15)&~15ull; if(!sz) sz=16;
    if(q+sz+32>(u64)a_end){aunlock();errno=ENOMEM;return 0;}
    p=(u8*)q; struct hdr*h=(struct hdr*)(p-16); h->cls=NCLS; h->magic=0x51a110c; h->size=sz; a_cur=p+sz;
  }
  aunlock(); return p;
}
static void do_free(void*v){
  if(!v) return;
  u8*p=v; struct hdr*h=(struct hdr*)(p-16);
  if(h->magic!=0x51a110c) { static const char m[]="simrt: bad free\n"; raw6(SYS_write,2,(long)m,sizeof m-1,0,0,0); raw6(SYS_exit_group,79,0,0,0,0,0); }
  if(h->cls>=NCLS) return;
  alock(); struct fnode*f=v; f->next=a_free[h->cls]; a_free[h->cls]=f; aunlock();
}
static i64 heap_now; // bytes the program holds; counted from the first file it opens
static inline void*do_malloc(size_t n,size_t align){
  if(UNLIKELY(g_active)){ O->c[C_ALLOCS]++; if(P[P_ALLOC_FAIL_AT]&&alloc_fault(n)){errno=ENOMEM;return 0;}
    void*p=own_malloc(n,align); if(p){ i64 h=__atomic_add_fetch(&heap_now,(i64)((struct hdr*)((u8*)p-16))->size,__ATOMIC_RELAXED); if(h>(i64)O->c[C_PEAKMEM]) O->c[C_PEAKMEM]=h; } return p; }
  return own_malloc(n,align);
}
static inline void heap_sub(void*p){ if(UNLIKELY(g_active)&&p) __atomic_sub_fetch(&heap_now,(i64)((struct hdr*)((u8*)p-16))->size,__ATOMIC_RELAXED); }
void*malloc(size_t n){return do_malloc(n,16);}
void free(void*p){int e=errno; heap_sub(p); do_free(p); errno=e;}
void*calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){errno=ENOMEM;return 0;} void*p=do_malloc(n,16); if(p) memset(p,0,n); return p; }
void*realloc(void*p,size_t n){
  if(!p) return do_malloc(n,16);
  struct hdr*h=(struct hdr*)((u8*)p-16);
  if(n<=h->size && n*2+64>=h->size) return p;
  void*q=do_malloc(n,16); if(!q) return 0;
  memcpy(q,p,n<h->size?n:h->size); heap_sub(p); do_free(p); return q;
}
int posix_memalign(void**o,size_t a,size_t n){ void*p=do_malloc(n,a); if(!p) return ENOMEM; *o=p; return 0; }
void*aligned_alloc(size_t a,size_t n){return do_malloc(n,a);}
void*memalign(size_t a,size_t n){return do_malloc(n,a);}
size_t malloc_usable_size(void*p){return p?((struct hdr*)((u8*)p-16))->size:0;}

// ---------------------------------------------------------------- threads and scheduler
enum { S_FREE, S_RUN, S_FUTEX, S_JOIN, S_DONE, S_PIPE, S_SLEEP, S_WAITPID, S_POLL };
struct dtor{void(*f)(void*);void*o;struct dtor*next;};
struct thr{ int state; u32 baton; void*waddr; u32 wmask; u64 deadline; int has_deadline, timed_out, woken; pthread_t real;
  void*(*fn)(void*); void*arg; void*ret; int jtarget; u64 prio; u64 nev; struct dtor*dt; int detached; long wkey; u64 exit_ev; };
#define MAXT 160
static struct thr T[MAXT]; static int nT; static int cur; static int n_live=1;
static __thread int my_tid;
static u64 g_now; // simulated nanoseconds
static u64 g_ev;
static u64 *rp; static u64 rp_n, rp_i; // replay list
static u64 gapleft[5]; // class countdowns
static u64 pct_pts[64]; static int pct_n,pct_i; static u64 pct_cnt; static i64 pct_low;
static u64 run_len; // consecutive points by the same thread

static void rfutex_wait(u32*a,u32 v){ raw6(SYS_futex,(long)a,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,v,0,0,0); }
static void rfutex_wake(u32*a){ raw6(SYS_futex,(long)a,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1,0,0,0); }
static void wait_baton(struct thr*t){ while(!__atomic_load_n(&t->baton,__ATOMIC_ACQUIRE)) rfutex_wait(&t->baton,0); __atomic_store_n(&t->baton,0,__ATOMIC_RELAXED); }

// simulated child processes ("actors")
struct op{u32 op,a;u64 b,c;};
struct pipe_{int used; u8*buf; size_t cap,len,head; int rd_open,wr_open;};
#define MAXPIPE 512
static struct pipe_ PI[MAXPIPE]; static int nPI;
struct actor{int used,alive,waited; int script; u32 ip; u64 progress; int in_pipe,out_pipe,err_pipe; u8*got; size_t gotlen,gotcap; int status; u64 wake_at; int sleeping; int stream; int blob;};
#define MAXACT 128
static struct actor A[MAXACT]; static int nA;
struct script{u32 n; struct op*ops;};
#define MAXSCRIPT 64
static struct script SC[MAXSCRIPT]; static int nSC;
struct blob{u32 klen; const u8*key; u32 len; const u8*data;};
#define MAXBLOB 256
static struct blob BL[MAXBLOB]; static int nBL;
static int actor_ready(struct actor*a); static void actor_step(int i);

static inline void mix(u64 v){ O->sched_hash=(O->sched_hash^v)*0x100000001b3ull; O->sched_hash^=O->sched_hash>>29; }
static void record(u64 ev,int tid){
  if(O->nswitch<SWITCH_CAP){ g_sw[2*O->nswitch]=ev; g_sw[2*O->nswitch+1]=tid; O->nswitch++; } else O->overflow=1;
}
static u64 gapdraw(u64 mean){ // 1..2*mean-1, mean `mean`; geometric-ish mixture
  if(mean<=1) return 1;
  u64 x=rnext(&R_sched);
  if((x&3)==0) return 1+rbelow(&R_sched,mean/4+1);
  return 1+rbelow(&R_sched,2*mean);
}
static int stalled(int t){ return P[P_STALL_TO] && t==(int)P[P_STALL_TID] && g_ev>=P[P_STALL_FROM] && g_ev<P[P_STALL_TO]; }

static NOI void deadlock(void){
  char b[2000]; int k=0;
  for(int i=0;i<nT&&k<1800;i++) if(T[i].state!=S_FREE) k+=snprintf(b+k,sizeof b-k,"thread %d state %s; ",i,(const char*[]){"free","runnable","futex-wait","join-wait","done","pipe-wait","sleep","waitpid","poll"}[T[i].state]);
  for(int i=0;i<nA&&k<1800;i++) k+=snprintf(b+k,sizeof b-k,"child %d %s op %u; ",i,A[i].alive?"alive":"exited",A[i].ip);
  O->events=g_ev;
  finish(END_DEADLOCK,g_ev,"deadlock: %s",b);
}
static int fire_timers(void){ // nothing runnable: jump the clock to the next deadline
  u64 best=UINT64_MAX;
  for(int i=0;i<nT;i++) if((T[i].state==S_FUTEX||T[i].state==S_SLEEP||T[i].state==S_POLL)&&T[i].has_deadline&&T[i].deadline<best) best=T[i].deadline;
  for(int i=0;i<nA;i++) if(A[i].used&&A[i].alive&&A[i].sleeping&&A[i].wake_at<best) best=A[i].wake_at;
  if(best==UINT64_MAX) return 0;
  if(best>g_now) g_now=best;
  for(int i=0;i<nT;i++) if((T[i].state==S_FUTEX||T[i].state==S_SLEEP||T[i].state==S_POLL)&&T[i].has_deadline&&T[i].deadline<=g_now){ T[i].state=S_RUN; T[i].timed_out=1; O->c[C_TIMEOUTS]++; }
  for(int i=0;i<nA;i++) if(A[i].used&&A[i].alive&&A[i].sleeping&&A[i].wake_at<=g_now) A[i].sleeping=0;
  return 1;
}
// Decide who runs next. `must`: the current thread cannot continue. Returns thread index.
static NOI int choose(int must){
  for(;;){
    if(++g_ev>P[P_MAX_EVENTS]){ O->events=g_ev; finish(END_LIMIT,g_ev,"no completion within %lu events",(unsigned long)P[P_MAX_EVENTS]); }
    int cand[MAXT+MAXACT]; int n=0,nst=0;
    int self_ok=!must && T[cur].state==S_RUN;
    for(int i=0;i<nT;i++) if(T[i].state==S_RUN && !(must==2&&i==cur&&n_live>1)) { if(stalled(i)){nst++;continue;} cand[n++]=i; }
    for(int i=0;i<nA;i++) if(actor_ready(&A[i])) cand[n++]=MAXT+i;
    if(n==0 && nst){ for(int i=0;i<nT;i++) if(T[i].state==S_RUN&&!(must==2&&i==cur&&n_live>1)) cand[n++]=i; }
    else if(nst) O->c[C_STALLED_PICKS]++;
    if(n==0){ if(must==2&&T[cur].state==S_RUN){ must=0; cand[n++]=cur; } else if(fire_timers()) continue; else deadlock(); }
    int pick=-1;
    if(P[P_MODE]==3){
      while(rp_i<rp_n && rp[2*rp_i]<g_ev) rp_i++;
      if(rp_i<rp_n && rp[2*rp_i]==g_ev){ for(int k=0;k<n;k++) if(cand[k]==(int)rp[2*rp_i+1]) pick=cand[k]; rp_i++; }
      if(pick<0){ if(self_ok) pick=cur; else pick=cand[0]; }
    } else if(P[P_MODE]==2){
      u64 bp=0; for(int k=0;k<n;k++){ u64 pr=cand[k]<MAXT?T[cand[k]].prio:1000+(u64)cand[k]; if(pick<0||pr>bp){pick=cand[k];bp=pr;} }
    } else if(P[P_MODE]==1){
      if(!must && n>1){ // preemption: somebody else
        int k=rbelow(&R_sched,n); if(cand[k]==cur) k=(k+1)%n; pick=cand[k];
      } else pick=cand[rbelow(&R_sched,n)];
    } else pick=self_ok?cur:cand[0];
    if(pick>=MAXT){ record(g_ev,pick); mix(pick); actor_step(pick-MAXT); if(self_ok) { return cur; } continue; }
    record(g_ev,pick);
    return pick;
  }
}
static NOI void hand_over(int t){ // give the baton to t and wait for ours (unless done)
  if(t==cur) return;
  O->switches++; O->events=g_ev; mix(((u64)cur<<40)^((u64)t<<32)^T[cur].nev); T[cur].nev=0; run_len=0;
  int me=cur; cur=t;
  __atomic_store_n(&T[t].baton,1,__ATOMIC_RELEASE); rfutex_wake(&T[t].baton);
  if(T[me].state==S_DONE) for(;;) raw6(SYS_pause,0,0,0,0,0,0);
  wait_baton(&T[me]);
}
static NOI void block_here(void){ // current thread has a waiting state
  O->c[C_BLOCK_SWITCH]++;
  int t=choose(1);
  if(t==cur){ return; } // it was woken by an actor/timer while we were choosing
  hand_over(t);
}
static NOI void preempt(void){ O->c[C_PREEMPT]++; int t=choose(0); hand_over(t); }

// shared-object detection: which addresses have been touched by two threads
#define HOTN (1u<<16)
struct hot{u64 a; u32 tid; u32 multi;};
static struct hot HOT[HOTN]; static u32 hot_used;
extern char __executable_start, _end; static u64 main_frame;
static inline u64 norm_addr(u64 a){ // independent of address-space randomisation
  if(a>=ARENA_BASE && a<ARENA_BASE+ARENA_SIZE) return a;
  if(a>=(u64)&__executable_start && a<(u64)&_end) return a-(u64)&__executable_start+1;
  if(a<main_frame+65536 && a+(64u<<20)>main_frame) return 0x40000000ull+(main_frame+65536-a);
  return 0;
}
static inline int is_hot(void*addr){
  u64 a=norm_addr((u64)addr); if(!a) return 0; u64 h=(a>>3)*0x9e3779b97f4a7c15ull>>48; 
  for(u32 i=0;i<64;i++){ struct hot*e=&HOT[(h+i)&(HOTN-1)];
    if(e->a==a){ if(e->multi) return 1; if(e->tid!=(u32)cur){e->multi=1;return 1;} return 0; }
    if(!e->a){ if(hot_used>HOTN/2) return 1; hot_used++; e->a=a; e->tid=cur; return 0; } }
  return 1;
}
enum { K_A, K_R, K_S };
static NOI void point_slow(int kind,void*addr){
  T[cur].nev++;
  O->c[C_ATOMICS]++;
  if(P[P_MODE]==0){ ++g_ev; if(g_ev>P[P_MAX_EVENTS]) {O->events=g_ev; finish(END_LIMIT,g_ev,"no completion within %lu events",(unsigned long)P[P_MAX_EVENTS]);} return; }
  if(P[P_MODE]==3){
    ++g_ev; // every point consumes one event number in every mode
    if(g_ev>P[P_MAX_EVENTS]){O->events=g_ev; finish(END_LIMIT,g_ev,"no completion within %lu events",(unsigned long)P[P_MAX_EVENTS]);}
    while(rp_i<rp_n && rp[2*rp_i]<=g_ev) rp_i++;
    if(rp_i<rp_n && rp[2*rp_i]==g_ev+1){ preempt(); }
    else if(++run_len>4000000){ run_len=0; preempt(); }
    return;
  }
  ++g_ev;
  if(g_ev>P[P_MAX_EVENTS]){O->events=g_ev; finish(END_LIMIT,g_ev,"no completion within %lu events",(unsigned long)P[P_MAX_EVENTS]);}
  int cls;
  if(kind==K_S) cls=4; else { int h=is_hot(addr); if(h) O->c[C_HOT]++; cls=(kind==K_R?2:0)+h; }
  if(P[P_MODE]==2){
    if(cls==1||cls==4||cls==3){ pct_cnt++;
      if(pct_i<pct_n && pct_cnt>=pct_pts[pct_i]){ pct_i++; T[cur].prio=(u64)(pct_low--); preempt(); return; } }
    if(cls==4){ int best=cur; for(int i=0;i<nT;i++) if(T[i].state==S_RUN&&T[i].prio>T[best].prio) best=i; if(best!=cur) {preempt();return;} }
    if(++run_len>4000000){ run_len=0; T[cur].prio=(u64)(pct_low--); preempt(); }
    return;
  }
  static const int par[5]={P_GAP_ACOLD,P_GAP_AHOT,P_GAP_RCOLD,P_GAP_RHOT,P_GAP_SYS};
  u64 g=P[par[cls]];
  if(g && --gapleft[cls]==0){ gapleft[cls]=gapdraw(g); preempt(); return; }
  if(++run_len>4000000){ run_len=0; preempt(); }
}
static inline void point(int kind,void*addr){ if(UNLIKELY(g_active) && n_live>1 && my_tid==cur) point_slow(kind,addr); }
static int actors_alive;
static u64 n_sys;
static inline void spoint(void){ if(UNLIKELY(g_active)&&my_tid==cur&&++n_sys==P[P_KILL_AT]){ O->events=g_ev; O->simtime=n_sys; finish(END_KILLED,n_sys,"killed at system call %lu",(unsigned long)n_sys); } if(UNLIKELY(g_active) && (n_live>1||actors_alive) && my_tid==cur) point_slow(K_S,0); }

static int(*real_pthread_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int(*real_pthread_join)(pthread_t,void**);
static int(*real_pthread_detach)(pthread_t);
static void*thread_main(void*v){
  struct thr*t=v; my_tid=t-T;
  wait_baton(t);
  t->ret=t->fn(t->arg); t->exit_ev=g_ev;
  while(t->dt){ struct dtor*d=t->dt; t->dt=d->next; d->f(d->o); }
  spoint();
  t->state=S_DONE; n_live--; if(n_live<1) { O->events=g_ev; BUG("n_live %d nT %d tid %d cur %d mode %lu st %d %d %d %d %d threads %lu ev %lu", n_live, nT, my_tid,cur,P[P_MODE],T[0].state,T[1].state,T[2].state,T[3].state,T[4].state,O->c[C_THREADS],g_ev); }
  for(int i=0;i<nT;i++) if(T[i].state==S_JOIN&&T[i].jtarget==my_tid) T[i].state=S_RUN;
  int n=choose(1); hand_over(n);
  return 0;
}
int pthread_create(pthread_t*o,const pthread_attr_t*at,void*(*fn)(void*),void*arg){
  if(!real_pthread_create) real_pthread_create=dlsym(RTLD_NEXT,"pthread_create");
  if(!g_active) return real_pthread_create(o,at,fn,arg);
  spoint();
  O->c[C_THREADS]++;
  if(P[P_THREAD_FAIL_AT]&&O->c[C_THREADS]==P[P_THREAD_FAIL_AT]){ O->c[C_THREAD_FAIL]++; return EAGAIN; }
  if(nT>=MAXT) return EAGAIN;
  { size_t ss=0; if(at&&!pthread_attr_getstacksize(at,&ss)){ if(!O->c[C_MINSTACK]||ss<O->c[C_MINSTACK]) O->c[C_MINSTACK]=ss; } }
  struct thr*t=&T[nT]; memset(t,0,sizeof*t); t->fn=fn; t->arg=arg; t->state=S_RUN;
  t->prio=P[P_MODE]==2? 1000000+rbelow(&R_sched,1000000):0;
  pthread_t rt;
  int e=real_pthread_create(&rt,at,thread_main,t);
  if(e){ return e; }
  t->real=rt; *o=rt; nT++; n_live++; if(n_live<1||n_live>nT) BUG("n_live %d nT %d", n_live,nT); if((u64)n_live>O->c[C_MAXLIVE]) O->c[C_MAXLIVE]=n_live;
  if(!O->c[C_EVENTS_AT_MT]) O->c[C_EVENTS_AT_MT]=g_ev+1;
  spoint();
  return 0;
}
int pthread_join(pthread_t h,void**ret){
  if(!real_pthread_join) real_pthread_join=dlsym(RTLD_NEXT,"pthread_join");
  if(!g_active) return real_pthread_join(h,ret);
  spoint();
  int k=-1; for(int i=1;i<nT;i++) if(pthread_equal(T[i].real,h)) k=i;
  if(k<0) return ESRCH;
  while(T[k].state!=S_DONE){ T[cur].state=S_JOIN; T[cur].jtarget=k; block_here(); }
  if(ret)*ret=T[k].ret;
  return 0;
}
int pthread_detach(pthread_t h){
  if(!real_pthread_detach) real_pthread_detach=dlsym(RTLD_NEXT,"pthread_detach");
  if(!g_active) return real_pthread_detach(h);
  return 0;
}
int __cxa_thread_atexit_impl(void(*f)(void*),void*o,void*d){
  if(!g_active){ static int(*real)(void(*)(void*),void*,void*); if(!real) real=dlsym(RTLD_NEXT,"__cxa_thread_atexit_impl"); return real(f,o,d); }
  struct dtor*x=own_malloc(sizeof*x,16); x->f=f;x->o=o;x->next=T[my_tid].dt;T[my_tid].dt=x; return 0;
}
int sched_yield(void){
  if(!g_active) return rawe(SYS_sched_yield,0,0,0,0,0,0);
  O->c[C_YIELDS]++;
  if(n_live>1){ g_ev++; T[cur].nev++; if(P[P_MODE]==2) T[cur].prio=(u64)(pct_low--);
    if(P[P_MODE]==3){ while(rp_i<rp_n && rp[2*rp_i]<=g_ev) rp_i++; if(rp_i<rp_n && rp[2*rp_i]==g_ev+1) preempt(); else if(++run_len>200000){run_len=0; /* fairness */ int t=choose(2); hand_over(t);} }
    else preempt(); }
  return 0;
}

// ---------------------------------------------------------------- futex and syscall()
static long sim_futex(u32*addr,int opf,u32 val,const struct timespec*ts,u32 val3){
  int op=opf&127;
  if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
    spoint();
    if(__atomic_load_n(addr,__ATOMIC_SEQ_CST)!=val){errno=EAGAIN;return -1;}
    O->c[C_FUTEX_WAIT]++;
    if(P[P_SPURIOUS]&&rbelow(&R_aux,P[P_SPURIOUS])==0){ O->c[C_SPURIOUS]++; return 0; }
    struct thr*t=&T[cur]; t->waddr=addr; t->state=S_FUTEX; t->timed_out=0; t->has_deadline=0;
    if(ts){ u64 d=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; if(op==FUTEX_WAIT) d+=g_now; t->has_deadline=1; t->deadline=d; }
    block_here();
    t=&T[my_tid]; t->waddr=0;
    if(t->timed_out){errno=ETIMEDOUT;return -1;}
    return 0;
  }
  if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){
    O->c[C_FUTEX_WAKE]++;
    long woken=0;
    for(;;){ if(woken>=(long)val) break; int c[MAXT],n=0; for(int i=0;i<nT;i++) if(T[i].state==S_FUTEX&&T[i].waddr==addr) c[n++]=i; if(!n) break;
      int k=c[rbelow(&R_aux,n)]; T[k].state=S_RUN; woken++; }
    spoint();
    return woken;
  }
  BUG("unsupported futex op %d",op);
}
static void fill_random(u8*p,size_t n){ for(size_t i=0;i<n;i++) p[i]=(u8)rnext(&R_hash); }
long syscall(long n,...){
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(g_active){
    if(n==SYS_futex) return sim_futex((u32*)a,(int)b,(u32)c,(const struct timespec*)d,(u32)f);
    if(n==SYS_getrandom){ O->c[C_RANDOM_READS]++; fill_random((u8*)a,b); return b; }
    if(n==SYS_statx){ return statx((int)a,(const char*)b,(int)c,(unsigned)d,(struct statx*)e); }
    if(n==SYS_sched_yield) return sched_yield();
    if(n!=SYS_gettid && n!=SYS_prctl) { O->c[C_UNEXPECTED]++; }
  }
  return rawe(n,a,b,c,d,e,f);
}
ssize_t getrandom(void*p,size_t n,unsigned fl){
  if(!g_active) return rawe(SYS_getrandom,(long)p,n,fl,0,0,0);
  O->c[C_RANDOM_READS]++;
  if(P[P_HASH_FAIL]&&rbelow(&R_hash,P[P_HASH_FAIL])==0){ O->c[C_HASH_FAIL]++; errno=EINTR; return -1; }
  fill_random(p,n); return n;
}

// ---------------------------------------------------------------- clocks
int clock_gettime(clockid_t id,struct timespec*ts){
  if(!g_active) return rawe(SYS_clock_gettime,id,(long)ts,0,0,0,0);
  O->c[C_CLOCK_READS]++;
  u64 v=g_now;
  switch(P[P_CLOCK_MODE]){
    case 0: g_now+=1000; break;
    case 1: g_now+=rbelow(&R_clock,1000000); break;
    case 2: break;
    case 3: if(rbelow(&R_clock,8)==0){ g_now+=rbelow(&R_clock,3600ull*1000000000ull); O->c[C_CLOCK_JUMPS]++; } else g_now+=rbelow(&R_clock,2000); break;
    case 4: g_now+=500; if(rbelow(&R_clock,4)==0){ u64 back=rbelow(&R_clock,100000000ull); v=v>back?v-back:0; O->c[C_CLOCK_JUMPS]++; } break;
    case 5: g_now+= 1+ (rbelow(&R_clock,64)==0? (O->c[C_CLOCK_JUMPS]++, 40ull*365*86400*1000000000ull):0); if(g_now>(1ull<<62)) g_now=1ull<<62; v=g_now; break;
  }
  if(id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE) v+=1700000000ull*1000000000ull;
  ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; O->simtime=g_now; return 0;
}
int gettimeofday(struct timeval*tv,void*tz){ if(!g_active) return rawe(SYS_gettimeofday,(long)tv,(long)tz,0,0,0,0); struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
time_t time(time_t*o){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); if(o)*o=t.tv_sec; return t.tv_sec; }
static int sim_sleep(u64 d){ O->c[C_SLEEPS]++; T[cur].state=S_SLEEP; T[cur].has_deadline=1; T[cur].deadline=g_now+d; T[cur].timed_out=0; block_here(); return 0; }
int nanosleep(const struct timespec*q,struct timespec*r){ if(!g_active) return rawe(SYS_nanosleep,(long)q,(long)r,0,0,0,0); return sim_sleep(q->tv_sec*1000000000ull+q->tv_nsec); }
int clock_nanosleep(clockid_t id,int fl,const struct timespec*q,struct timespec*r){ if(!g_active){ long x=raw6(SYS_clock_nanosleep,id,fl,(long)q,(long)r,0,0); return -x; }
  u64 d=q->tv_sec*1000000000ull+q->tv_nsec; if(fl&TIMER_ABSTIME) d=d>g_now?d-g_now:0; sim_sleep(d); return 0; }
long sysconf(int n){ static long(*real)(int); if(g_active&&(n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF)) return P[P_NCPU]?P[P_NCPU]:4; if(!real) real=dlsym(RTLD_NEXT,"sysconf"); return real(n); }
int sched_getaffinity(pid_t p,size_t n,cpu_set_t*s){ if(g_active){ memset(s,0,n); for(unsigned i=0;i<(P[P_NCPU]?P[P_NCPU]:4);i++) CPU_SET_S(i,n,s); return 0; } long r=raw6(SYS_sched_getaffinity,p,n,(long)s,0,0,0); if(r<0){errno=-r;return -1;} return 0; }

// ---------------------------------------------------------------- virtual files
struct vfile{char name[120]; const u8*data; u64 len,cap; int stream,dead,fresh; };
#define MAXF 512
static struct vfile F[MAXF]; static int nF;
static const u8*in_stdin; static u64 in_stdin_len;
struct iof{u64 kind,a,b,c,d,e;};
static struct iof*IOF; static u64 nIOF;
enum { V_NONE, V_FILE, V_OUT, V_PR, V_PW, V_STDIN, V_NULL, V_DIR };
struct vfd{int type,idx,stream,chan,nonblock,rd,wr,app; u64 pos; u64 written;};
#define VBASE 1000
#define MAXV 512
static struct vfd V[MAXV];
static u64 std_written[3]; static u64 stdin_pos; static int s_out,s_err; static int n_created;
static int n_vfd;
static int vnew(int type){ for(int i=0;i<MAXV;i++) if(!V[i].type){ memset(&V[i],0,sizeof V[i]); V[i].type=type; if((u64)++n_vfd>O->c[C_MAXFD]) O->c[C_MAXFD]=n_vfd; return i; } BUG("fd table full"); }
static inline struct vfd*vget(int fd){ if(fd>=VBASE&&fd<VBASE+MAXV&&V[fd-VBASE].type) return &V[fd-VBASE]; return 0; }
static int vpath(const char*p,char*o){ // virtual path -> name; 0 if not virtual
  if(!strncmp(p,"/sim/",5)) p+=5; else if(!strcmp(p,"/sim")) p=""; else if(!strncmp(p,"/tmp/",5)) p++; else if(!strcmp(p,"/tmp")) p="tmp"; else if(!strncmp(p,"/var/tmp/",9)) p+=5; else if(p[0]=='/') return 0;
  while(!strncmp(p,"./",2)) p+=2;
  if(!strcmp(p,".")) p="";
  snprintf(o,120,"%s",p); size_t l=strlen(o); while(l&&o[l-1]=='/') o[--l]=0; return 1;
}
static int vlookup(const char*n){ for(int i=0;i<nF;i++) if(!F[i].dead&&!strcmp(F[i].name,n)) return i; return -1; }
static char DIRS[64][120]; static int nDIRS;
static int vlookup_dir(const char*n){ size_t l=strlen(n); if(!l||!strcmp(n,"tmp")) return 1; for(int i=0;i<nDIRS;i++) if(!strcmp(DIRS[i],n)) return 1; for(int i=0;i<nF;i++) if(!F[i].dead&&!strncmp(F[i].name,n,l)&&F[i].name[l]=='/') return 1; return 0; }
// a file this process changes gets a stream of its own, starting with the content it had
static void own_file(int f){ if(F[f].stream>=0) return; char sn[140]; snprintf(sn,sizeof sn,"out:%s",F[f].name); F[f].stream=new_stream(sn); stream_put(F[f].stream,F[f].data,F[f].len); }
static void file_store(int f,u64 off,const void*b,size_t n){ struct vfile*x=&F[f];
  if(off+n>x->cap){ u64 nc=(off+n>x->len?off+n:x->len)*2+256; u8*d=own_malloc(nc,16); if(!d) BUG("virtual file too large"); memcpy(d,x->data,x->len); if(x->cap) do_free((void*)x->data); x->data=d; x->cap=nc; }
  if(off>x->len) memset((u8*)x->data+x->len,0,off-x->len);
  memcpy((u8*)x->data+off,b,n); if(off+n>x->len) x->len=off+n; stream_at(x->stream,b,n,off); }
static int do_open(const char*path,int fl){
  char nm[120];
  if(!strcmp(path,"/dev/null")){ return VBASE+vnew(V_NULL); }
  if(!vpath(path,nm)){ if((fl&O_ACCMODE)==O_RDONLY&&(!strncmp(path,"/proc/",6)||!strncmp(path,"/sys/",5)||!strncmp(path,"/etc/",5))) return rawe(SYS_openat,AT_FDCWD,(long)path,fl,0,0,0); errno=ENOENT; return -1; }
  spoint();
  if(!O->c[C_OPENS]&&!O->c[C_CREATES]){ heap_now=0; O->c[C_PEAKMEM]=0; }
  if((fl&O_ACCMODE)==O_RDONLY){
    O->c[C_OPENS]++;
    for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_OPEN_ERR&&IOF[i].a==O->c[C_OPENS]){ O->c[C_OPEN_ERR]++; errno=IOF[i].c; return -1; }
    int f=vlookup(nm); if(f<0){ if(vlookup_dir(nm)){ int v=vnew(V_DIR); return VBASE+v; } errno=ENOENT; return -1; }
    int v=vnew(V_FILE); V[v].idx=f; V[v].rd=1; return VBASE+v;
  }
  O->c[C_CREATES]++;
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_CREATE_ERR&&IOF[i].a==O->c[C_CREATES]){ O->c[C_CREATE_ERR]++; errno=IOF[i].c; return -1; }
  if(vlookup_dir(nm)&&vlookup(nm)<0){ errno=EISDIR; return -1; }
  int f=vlookup(nm);
  if(f<0){
    if(!(fl&O_CREAT)){ errno=ENOENT; return -1; }
    char dn[120]; snprintf(dn,120,"%s",nm); char*sl=strrchr(dn,'/'); if(sl){ *sl=0; if(!vlookup_dir(dn)){ errno=ENOENT; return -1; } }
    if(nF>=MAXF) BUG("files"); f=nF++; memset(&F[f],0,sizeof F[f]); snprintf(F[f].name,120,"%s",nm); F[f].stream=-1; F[f].fresh=1;
  } else if((fl&O_CREAT)&&(fl&O_EXCL)){ errno=EEXIST; return -1; }
  own_file(f);
  if((fl&O_TRUNC)&&F[f].len){ F[f].len=0; stream_trunc(F[f].stream,0); }
  int v=vnew(V_FILE); V[v].idx=f; V[v].wr=1; V[v].rd=(fl&O_ACCMODE)==O_RDWR; V[v].app=!!(fl&O_APPEND); V[v].chan=10+n_created++; return VBASE+v;
}
int open64(const char*p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){va_list ap;va_start(ap,fl);m=va_arg(ap,int);va_end(ap);} if(!g_active) return rawe(SYS_openat,AT_FDCWD,(long)p,fl,m,0,0); return do_open(p,fl); }
int open(const char*p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){va_list ap;va_start(ap,fl);m=va_arg(ap,int);va_end(ap);} if(!g_active) return rawe(SYS_openat,AT_FDCWD,(long)p,fl,m,0,0); return do_open(p,fl); }
int openat64(int d,const char*p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){va_list ap;va_start(ap,fl);m=va_arg(ap,int);va_end(ap);} if(!g_active||d!=AT_FDCWD) return rawe(SYS_openat,d,(long)p,fl,m,0,0); return do_open(p,fl); }

static void wake_pipe(int pi){ for(int i=0;i<nT;i++) if((T[i].state==S_PIPE&&T[i].wkey==pi)||T[i].state==S_POLL) T[i].state=S_RUN; }
static ssize_t pipe_read(struct vfd*v,u8*buf,size_t n){
  struct pipe_*p=&PI[v->idx];
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_PIPEREAD_ERR&&v->pos>=IOF[i].b){ O->c[C_PIPEREAD_ERR]++; errno=IOF[i].c; return -1; }
  spoint();
  while(!p->len){
    if(!p->wr_open) return 0;
    if(v->nonblock){errno=EAGAIN;return -1;}
    T[cur].state=S_PIPE; T[cur].wkey=v->idx; block_here();
  }
  if(n>p->len) n=p->len;
  if(P[P_READ_CHUNK]&&n>1){ u64 m=1+rbelow(&R_io,P[P_READ_CHUNK]); if(m<n){n=m;O->c[C_SHORT_READ]++;} }
  for(size_t i=0;i<n;i++) buf[i]=p->buf[(p->head+i)%p->cap];
  p->head=(p->head+n)%p->cap; p->len-=n; v->pos+=n; wake_pipe(v->idx);
  return n;
}
static ssize_t pipe_write(struct vfd*v,const u8*buf,size_t n){
  struct pipe_*p=&PI[v->idx]; size_t done=0;
  spoint();
  while(done<n){
    if(!p->rd_open){ O->c[C_EPIPE]++; if(done) return done; errno=EPIPE; return -1; }
    size_t sp=p->cap-p->len;
    if(!sp){ O->c[C_PIPE_FULL]++; if(v->nonblock){ if(done) return done; errno=EAGAIN; return -1; } T[cur].state=S_PIPE; T[cur].wkey=v->idx; block_here(); continue; }
    size_t m=n-done<sp?n-done:sp;
    for(size_t i=0;i<m;i++) p->buf[(p->head+p->len+i)%p->cap]=buf[done+i];
    p->len+=m; done+=m; wake_pipe(v->idx);
    if(P[P_WRITE_CHUNK]&&done<n&&rbelow(&R_io,3)==0){ O->c[C_SHORT_WRITE]++; return done; }
  }
  return done;
}
static ssize_t data_read(int fidx,const u8*data,u64 len,u64*pos,u8*buf,size_t n){
  O->c[C_READS]++;
  if(P[P_READ_EINTR]&&rbelow(&R_io,P[P_READ_EINTR])==0){ O->c[C_READ_EINTR]++; errno=EINTR; return -1; }
  u64 lim=len;
  for(u64 i=0;i<nIOF;i++){ struct iof*f=&IOF[i];
    if(f->kind==F_READ_ERR&&((i64)f->a==fidx||(i64)f->a==-1)){ if(*pos>=f->b){ O->c[C_READ_ERR]++; errno=f->c; return -1; } if(f->b<lim) lim=f->b; }
    if(f->kind==F_READ_EOF&&((i64)f->a==fidx||(i64)f->a==-1)&&f->b<lim){ lim=f->b; if(*pos>=lim) O->c[C_READ_EOF]++; } }
  if(*pos>=lim||!n) return 0;
  if(n>lim-*pos) n=lim-*pos;
  if(P[P_READ_CHUNK]&&n>1){ u64 m=1+rbelow(&R_io,P[P_READ_CHUNK]); if(m<n){n=m;O->c[C_SHORT_READ]++;} }
  memcpy(buf,data+*pos,n);
  for(u64 i=0;i<nIOF;i++){ struct iof*f=&IOF[i]; if(f->kind==F_READ_FLIP&&(i64)f->a==fidx&&f->b>=*pos&&f->b<*pos+n){ buf[f->b-*pos]^=(u8)f->c; O->c[C_READ_FLIP]++; } }
  *pos+=n; return n;
}
static ssize_t sim_read(int fd,void*buf,size_t n){
  if(fd==0){ spoint(); return data_read(1000,in_stdin,in_stdin_len,&stdin_pos,buf,n); }
  struct vfd*v=vget(fd); if(!v) return rawe(SYS_read,fd,(long)buf,n,0,0,0);
  switch(v->type){ case V_FILE: spoint(); if(!v->rd){errno=EBADF;return -1;} return data_read(v->idx,F[v->idx].data,F[v->idx].len,&v->pos,buf,n); case V_PR: return pipe_read(v,buf,n); case V_NULL: return 0; case V_DIR: errno=EISDIR; return -1; default: errno=EBADF; return -1; }
}
ssize_t read(int fd,void*b,size_t n){ if(!g_active) return rawe(SYS_read,fd,(long)b,n,0,0,0); return sim_read(fd,b,n); }
ssize_t readv(int fd,const struct iovec*io,int k){ if(!g_active) return rawe(SYS_readv,fd,(long)io,k,0,0,0); for(int i=0;i<k;i++) if(io[i].iov_len) return sim_read(fd,io[i].iov_base,io[i].iov_len); return 0; }
ssize_t pread64(int fd,void*b,size_t n,off64_t off){ if(g_active){ struct vfd*v=vget(fd); if(v&&v->type==V_FILE){ u64 p=off; return data_read(v->idx,F[v->idx].data,F[v->idx].len,&p,b,n);} } return rawe(SYS_pread64,fd,(long)b,n,off,0,0); }
static ssize_t chan_write(int chan,int is_file,u64*written,int stream,struct vfd*vf,const void*b,size_t n){
  spoint();
  O->c[C_WRITES]++;
  if(P[P_WRITE_EINTR]&&rbelow(&R_io,P[P_WRITE_EINTR])==0){ O->c[C_WRITE_EINTR]++; errno=EINTR; return -1; }
  for(u64 i=0;i<nIOF;i++){ struct iof*f=&IOF[i]; if(f->kind!=F_WRITE_ERR) continue; if((i64)f->a==chan||(is_file&&f->a==3)){ if(n && *written>=f->b){ O->c[C_WRITE_ERR]++; errno=f->c; return -1; } if(*written+n>f->b) n=f->b-*written; } }
  if(P[P_WRITE_CHUNK]&&n>1){ u64 m=1+rbelow(&R_io,P[P_WRITE_CHUNK]); if(m<n){n=m;O->c[C_SHORT_WRITE]++;} }
  if(vf){ if(vf->app) vf->pos=F[vf->idx].len; file_store(vf->idx,vf->pos,b,n); vf->pos+=n; } else stream_put(stream,b,n); *written+=n; return n;
}
static ssize_t sim_write(int fd,const void*b,size_t n){
  if(fd==1||fd==2) return chan_write(fd,0,&std_written[fd],fd==1?s_out:s_err,0,b,n);
  struct vfd*v=vget(fd); if(!v) return rawe(SYS_write,fd,(long)b,n,0,0,0);
  switch(v->type){ case V_FILE: if(!v->wr){errno=EBADF;return -1;} return chan_write(v->chan,1,&v->written,0,v,b,n); case V_PW: return pipe_write(v,b,n); case V_NULL: return n; default: errno=EBADF; return -1; }
}
ssize_t write(int fd,const void*b,size_t n){ if(!g_active) return rawe(SYS_write,fd,(long)b,n,0,0,0); return sim_write(fd,b,n); }
ssize_t writev(int fd,const struct iovec*io,int k){ if(!g_active) return rawe(SYS_writev,fd,(long)io,k,0,0,0);
  ssize_t tot=0; for(int i=0;i<k;i++){ if(!io[i].iov_len) continue; ssize_t r=sim_write(fd,io[i].iov_base,io[i].iov_len); if(r<0) return tot?tot:-1; tot+=r; if((size_t)r<io[i].iov_len) break; } return tot; }
int close(int fd){
  if(!g_active) return rawe(SYS_close,fd,0,0,0,0,0);
  struct vfd*v=vget(fd); if(!v) return rawe(SYS_close,fd,0,0,0,0,0);
  int t=v->type; int ix=v->idx; v->type=V_NONE; n_vfd--;
  if(t==V_PR){ PI[ix].rd_open--; wake_pipe(ix); } if(t==V_PW){ PI[ix].wr_open--; wake_pipe(ix); }
  if(t==V_PR||t==V_PW) spoint();
  return 0;
}
off64_t lseek64(int fd,off64_t o,int w){
  if(!g_active) return rawe(SYS_lseek,fd,o,w,0,0,0);
  struct vfd*v=vget(fd); if(!v) return rawe(SYS_lseek,fd,o,w,0,0,0);
  if(v->type!=V_FILE){ errno=ESPIPE; return -1; }
  i64 b=w==SEEK_SET?0:w==SEEK_CUR?(i64)v->pos:(i64)F[v->idx].len; b+=o; if(b<0){errno=EINVAL;return -1;} v->pos=b; return b;
}
off_t lseek(int fd,off_t o,int w){ return lseek64(fd,o,w); }
int fcntl64(int fd,int cmd,...){ va_list ap;va_start(ap,cmd);long a=va_arg(ap,long);va_end(ap);
  if(g_active){ struct vfd*v=vget(fd); if(v){ if(cmd==F_DUPFD||cmd==F_DUPFD_CLOEXEC){ int n=vnew(v->type); V[n]=*v; if(v->type==V_PR)PI[v->idx].rd_open++; if(v->type==V_PW)PI[v->idx].wr_open++; return VBASE+n; } if(cmd==F_GETFL) return v->nonblock?O_NONBLOCK:0; if(cmd==F_SETFL) v->nonblock=!!(a&O_NONBLOCK); return 0; } }
  return rawe(SYS_fcntl,fd,cmd,a,0,0,0); }
int fcntl(int fd,int cmd,...){ va_list ap;va_start(ap,cmd);long a=va_arg(ap,long);va_end(ap); return fcntl64(fd,cmd,a); }
int ioctl(int fd,unsigned long r,...){ va_list ap;va_start(ap,r);long a=va_arg(ap,long);va_end(ap);
  if(g_active){ struct vfd*v=vget(fd); if(v){ if(r==0x5421/*FIONBIO*/){ v->nonblock=*(int*)a; return 0; } errno=ENOTTY; return -1; } if(fd<3){errno=ENOTTY;return -1;} }
  return rawe(SYS_ioctl,fd,r,a,0,0,0); }
int isatty(int fd){ if(g_active){errno=ENOTTY;return 0;} char b[64]; return rawe(SYS_ioctl,fd,0x5401,(long)b,0,0,0)==0; }
int poll(struct pollfd*f,nfds_t n,int to){
  if(!g_active) return rawe(SYS_poll,(long)f,n,to,0,0,0);
  int any=0; for(nfds_t i=0;i<n;i++) if(vget(f[i].fd)) any=1;
  if(!any){ for(nfds_t i=0;i<n;i++) f[i].revents=0; return 0; }
  spoint();
  for(;;){ int r=0;
    for(nfds_t i=0;i<n;i++){ f[i].revents=0; struct vfd*v=vget(f[i].fd); if(!v) continue;
      if(v->type==V_PR){ struct pipe_*p=&PI[v->idx]; if(p->len) f[i].revents|=POLLIN; else if(!p->wr_open) f[i].revents|=POLLHUP; }
      else if(v->type==V_PW){ struct pipe_*p=&PI[v->idx]; if(!p->rd_open) f[i].revents|=POLLERR; else if(p->len<p->cap) f[i].revents|=POLLOUT; }
      else f[i].revents=f[i].events; 
      f[i].revents&=f[i].events|POLLHUP|POLLERR; if(f[i].revents) r++; }
    if(r||to==0) return r;
    if(P[P_EINTR_WAIT]&&rbelow(&R_io,P[P_EINTR_WAIT])==0){ O->c[C_WAIT_EINTR]++; errno=EINTR; return -1; }
    struct thr*t=&T[cur]; t->state=S_POLL; t->timed_out=0; t->has_deadline=to>0; if(to>0) t->deadline=g_now+to*1000000ull; block_here();
    if(T[my_tid].timed_out) return 0;
  }
}
static void fill_mode(int dir,u64 size,u32*mode){ *mode=(dir?S_IFDIR|0755:S_IFREG|0644); (void)size; }
static int vstat(const char*path,int fd,int*dir,u64*size){ // 1 ok, 0 not virtual, -1 error
  if(path&&path[0]){ char nm[120]; if(!vpath(path,nm)) return 0; int f=vlookup(nm); 
    for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_STAT_ERR&&IOF[i].a==(u64)f){ O->c[C_STAT_ERR]++; errno=IOF[i].c; return -1; }
    if(f>=0){*dir=0;*size=F[f].len;return 1;} if(vlookup_dir(nm)){*dir=1;*size=0;return 1;} errno=ENOENT; return -1; }
  if(fd==0){ *dir=0;*size=0; return 1; }
  struct vfd*v=vget(fd); if(!v) return 0; *dir=v->type==V_DIR; *size=v->type==V_FILE?F[v->idx].len:0; return 1;
}
int statx(int d,const char*p,int fl,unsigned mask,struct statx*o){
  { const void*volatile vp=p; void*volatile vo=o; if(g_active&&(!vp||!vo)){ errno=EFAULT; return -1; } }
  if(g_active){ int dir; u64 sz; int r=vstat(p,d,&dir,&sz); if(r<0) return -1; if(r){ memset(o,0,sizeof*o); o->stx_mask=STATX_BASIC_STATS; u32 m; fill_mode(dir,sz,&m); o->stx_mode=m; o->stx_size=sz; o->stx_nlink=1; o->stx_blksize=4096; return 0; } }
  return rawe(SYS_statx,d,(long)p,fl,mask,(long)o,0);
}
static int st_fill(struct stat*o,int dir,u64 sz){ memset(o,0,sizeof*o); u32 m; fill_mode(dir,sz,&m); o->st_mode=m; o->st_size=sz; o->st_nlink=1; o->st_blksize=4096; return 0; }
int stat64(const char*p,struct stat64*o){ if(g_active){int dir;u64 sz;int r=vstat(p,-1,&dir,&sz); if(r<0)return -1; if(r) return st_fill((struct stat*)o,dir,sz);} return rawe(SYS_newfstatat,AT_FDCWD,(long)p,(long)o,0,0,0); }
int stat(const char*p,struct stat*o){ return stat64(p,(struct stat64*)o); }
int lstat64(const char*p,struct stat64*o){ return stat64(p,o); }
int fstat64(int fd,struct stat64*o){ if(g_active){int dir;u64 sz;int r=vstat(0,fd,&dir,&sz); if(r<0)return -1; if(r) return st_fill((struct stat*)o,dir,sz);} return rawe(SYS_fstat,fd,(long)o,0,0,0,0); }
int fstat(int fd,struct stat*o){ return fstat64(fd,(struct stat64*)o); }
// directories
struct vdir{u32 magic; int n,i; char (*names)[120]; u8*isdir; struct dirent64 de;};
DIR*opendir(const char*p){
  static DIR*(*real)(const char*); char nm[120];
  if(!g_active||!vpath(p,nm)){ if(!real) real=dlsym(RTLD_NEXT,"opendir"); return real(p); }
  if(!vlookup_dir(nm)){errno=ENOENT;return 0;}
  struct vdir*d=own_malloc(sizeof*d,16); memset(d,0,sizeof*d); d->magic=0xd1d1; d->names=own_malloc(120*(MAXF+1),16); d->isdir=own_malloc(MAXF+1,16);
  size_t l=strlen(nm);
  for(int i=0;i<nF;i++){ const char*q=F[i].name; if(F[i].dead) continue; if(l){ if(strncmp(q,nm,l)||q[l]!='/') continue; q+=l+1; } char c[120]; snprintf(c,120,"%s",q); char*s=strchr(c,'/'); int isd=0; if(s){*s=0;isd=1;} int dup=0; for(int k=0;k<d->n;k++) if(!strcmp(d->names[k],c)) dup=1; if(!dup){ strcpy(d->names[d->n],c); d->isdir[d->n]=isd; d->n++; } }
  if(P[P_DIR_SHUFFLE]) for(int i=d->n-1;i>0;i--){ int j=rbelow(&R_io,i+1); char t[120]; memcpy(t,d->names[i],120); memcpy(d->names[i],d->names[j],120); memcpy(d->names[j],t,120); u8 x=d->isdir[i]; d->isdir[i]=d->isdir[j]; d->isdir[j]=x; }
  return (DIR*)d;
}
struct dirent64*readdir64(DIR*dd){
  static struct dirent64*(*real)(DIR*); struct vdir*d=(struct vdir*)dd;
  if(!g_active||d->magic!=0xd1d1){ if(!real) real=dlsym(RTLD_NEXT,"readdir64"); return real(dd); }
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_READDIR_ERR&&(u64)d->i>=IOF[i].b){ O->c[C_READDIR_ERR]++; errno=IOF[i].c; return 0; }
  if(d->i>=d->n){ return 0; }
  strcpy(d->de.d_name,d->names[d->i]); d->de.d_type=d->isdir[d->i]?DT_DIR:DT_REG; d->de.d_ino=1000+d->i; d->i++; return &d->de;
}
int closedir(DIR*dd){ static int(*real)(DIR*); if(!g_active||((struct vdir*)dd)->magic!=0xd1d1){ if(!real) real=dlsym(RTLD_NEXT,"closedir"); return real(dd);} return 0; }
int dirfd(DIR*dd){ static int(*real)(DIR*); if(!g_active||((struct vdir*)dd)->magic!=0xd1d1){ if(!real) real=dlsym(RTLD_NEXT,"dirfd"); return real(dd);} return 999; }
char*getcwd(char*b,size_t n){ if(!g_active){ long r=raw6(SYS_getcwd,(long)b,n,0,0,0,0); if(r<0){errno=-r;return 0;} return b; } if(n<5){errno=ERANGE;return 0;} strcpy(b,"/sim"); return b; }
static void kill_file(int f){ F[f].dead=1; char nm[140]; snprintf(nm,sizeof nm,"deleted:%s",F[f].name); if(F[f].stream>=0) snprintf(O->name[F[f].stream],120,"%.119s",nm); else { int s=new_stream(nm); (void)s; } }
int mkdir(const char*p,mode_t m){ if(!g_active) return rawe(SYS_mkdir,(long)p,m,0,0,0,0); char nm[120]; if(!vpath(p,nm)){errno=EACCES;return -1;} spoint(); if(vlookup(nm)>=0||vlookup_dir(nm)){errno=EEXIST;return -1;} char dn[120]; snprintf(dn,120,"%s",nm); char*sl=strrchr(dn,'/'); if(sl){ *sl=0; if(!vlookup_dir(dn)){errno=ENOENT;return -1;} } if(nDIRS>=64) BUG("dirs"); snprintf(DIRS[nDIRS++],120,"%s",nm); return 0; }
int unlink(const char*p){ if(!g_active) return rawe(SYS_unlink,(long)p,0,0,0,0,0); char nm[120]; if(!vpath(p,nm)){errno=EACCES;return -1;} spoint(); int f=vlookup(nm); if(f<0){errno=ENOENT;return -1;} kill_file(f); return 0; }
int rename(const char*p,const char*q){ if(!g_active) return rawe(SYS_rename,(long)p,(long)q,0,0,0,0); char a[120],b[120]; if(!vpath(p,a)||!vpath(q,b)){errno=EACCES;return -1;} spoint(); int f=vlookup(a); if(f<0){errno=ENOENT;return -1;} if(!strcmp(a,b)) return 0; char dn[120]; snprintf(dn,120,"%s",b); char*sl=strrchr(dn,'/'); if(sl){ *sl=0; if(!vlookup_dir(dn)){errno=ENOENT;return -1;} }
  int g=vlookup(b); if(g>=0) kill_file(g); if(!F[f].fresh){ char nm[140]; snprintf(nm,sizeof nm,"deleted:%s",a); new_stream(nm); } own_file(f); F[f].fresh=1; snprintf(F[f].name,120,"%s",b); char nm[140]; snprintf(nm,sizeof nm,"out:%s",b); snprintf(O->name[F[f].stream],120,"%.119s",nm); return 0; }
int renameat(int d,const char*p,int e,const char*q){ if(g_active) return rename(p,q); return rawe(SYS_renameat2,d,(long)p,e,(long)q,0,0); }
int rmdir(const char*p){ if(g_active){errno=EACCES;return -1;} return rawe(SYS_rmdir,(long)p,0,0,0,0,0); }
int fsync(int fd){ if(g_active&&vget(fd)){spoint();return 0;} return rawe(SYS_fsync,fd,0,0,0,0,0); }
int fdatasync(int fd){ if(g_active&&vget(fd)){spoint();return 0;} return rawe(SYS_fdatasync,fd,0,0,0,0,0); }
int ftruncate64(int fd,off64_t n){ struct vfd*v; if(!g_active||!(v=vget(fd))) return rawe(SYS_ftruncate,fd,n,0,0,0,0); if(v->type!=V_FILE||!v->wr){errno=EINVAL;return -1;} spoint(); struct vfile*x=&F[v->idx]; if((u64)n<x->len){ x->len=n; stream_trunc(x->stream,n); } else if((u64)n>x->len){ u8 z=0; file_store(v->idx,n-1,&z,1); } return 0; }
int ftruncate(int fd,off_t n){ return ftruncate64(fd,n); }
int flock(int fd,int op){ if(g_active&&vget(fd)) return 0; return rawe(SYS_flock,fd,op,0,0,0,0); }
ssize_t copy_file_range(int a,off64_t*o,int b,off64_t*q,size_t n,unsigned fl){ if(g_active){errno=ENOSYS;return -1;} return rawe(SYS_copy_file_range,a,(long)o,b,(long)q,n,fl); }
ssize_t sendfile64(int a,int b,off64_t*o,size_t n){ if(g_active){errno=ENOSYS;return -1;} return rawe(SYS_sendfile,a,b,(long)o,n,0,0); }
ssize_t splice(int a,off64_t*o,int b,off64_t*q,size_t n,unsigned fl){ if(g_active){errno=EINVAL;return -1;} return rawe(SYS_splice,a,(long)o,b,(long)q,n,fl); }
int access(const char*p,int m){ if(!g_active) return rawe(SYS_faccessat,AT_FDCWD,(long)p,m,0,0,0); char nm[120]; if(!vpath(p,nm)){errno=ENOENT;return -1;} if(vlookup(nm)>=0||vlookup_dir(nm)) return 0; errno=ENOENT; return -1; }
char*realpath(const char*p,char*o){ static char*(*real)(const char*,char*); char nm[120]; if(!g_active||!vpath(p,nm)){ if(!real) real=dlsym(RTLD_NEXT,"realpath"); return real(p,o); } if(vlookup(nm)<0&&!vlookup_dir(nm)){errno=ENOENT;return 0;} if(!o&&!(o=do_malloc(200,16))){errno=ENOMEM;return 0;} snprintf(o,199,nm[0]?"/sim/%s":"/sim",nm); return o; }

// ---------------------------------------------------------------- pipes and child processes
int pipe2(int fd[2],int fl){
  if(!g_active) return rawe(SYS_pipe2,(long)fd,fl,0,0,0,0);
  static u64 npipe; npipe++;
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_PIPE_ERR&&IOF[i].a==npipe){ O->c[C_PIPE_ERR]++; errno=IOF[i].c; return -1; }
  if(nPI>=MAXPIPE) BUG("too many pipes");
  struct pipe_*p=&PI[nPI]; p->used=1; p->cap=P[P_PIPE_CAP]?P[P_PIPE_CAP]:65536; p->buf=own_malloc(p->cap,16); p->rd_open=p->wr_open=1;
  int r=vnew(V_PR); V[r].idx=nPI; int w=vnew(V_PW); V[w].idx=nPI; nPI++;
  fd[0]=VBASE+r; fd[1]=VBASE+w; return 0;
}
int pipe(int fd[2]){ return pipe2(fd,0); }
struct fa{const void*key; int from,to;}; static struct fa FA[64]; static int nFA;
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t*a,int f,int t){
  static int(*real)(posix_spawn_file_actions_t*,int,int);
  if(g_active){ if(nFA<64){FA[nFA].key=a;FA[nFA].from=f;FA[nFA].to=t;nFA++;} return 0; }
  if(!real) real=dlsym(RTLD_NEXT,"posix_spawn_file_actions_adddup2"); return real(a,f,t);
}
int posix_spawnp(pid_t*pid,const char*file,const posix_spawn_file_actions_t*fa,const posix_spawnattr_t*at,char*const argv[],char*const envp[]){
  if(!g_active){ static int(*real)(pid_t*,const char*,const posix_spawn_file_actions_t*,const posix_spawnattr_t*,char*const[],char*const[]); if(!real) real=dlsym(RTLD_NEXT,"posix_spawnp"); return real(pid,file,fa,at,argv,envp); }
  spoint();
  O->c[C_SPAWNS]++;
  int si=-1,so=-1,se=-1;
  int m=0; for(int i=0;i<nFA;i++){ if(FA[i].key!=(const void*)fa){ FA[m++]=FA[i]; continue; } struct vfd*v=vget(FA[i].from); if(!v) continue; if(FA[i].to==0&&v->type==V_PR) si=v->idx; if(FA[i].to==1&&v->type==V_PW) so=v->idx; if(FA[i].to==2&&v->type==V_PW) se=v->idx; }
  nFA=m;
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_SPAWN_ERR&&(IOF[i].a==O->c[C_SPAWNS]||IOF[i].a==0)){ O->c[C_SPAWN_ERR]++; return IOF[i].c; }
  if(nA>=MAXACT) return EAGAIN;
  struct actor*a=&A[nA]; memset(a,0,sizeof*a); a->used=a->alive=1; a->script=nSC?nA%nSC:-1; a->in_pipe=si; a->out_pipe=so; a->err_pipe=se; a->blob=-1;
  if(a->script<0) BUG("child process spawned without a script");
  char nm[64]; snprintf(nm,64,"child-argv:%d",nA); int s=new_stream(nm); for(int i=0;argv[i];i++){ stream_put(s,argv[i],strlen(argv[i])+1); }
  snprintf(nm,64,"child-stdin:%d",nA); a->stream=new_stream(nm);
  if(si>=0) PI[si].rd_open++; if(so>=0) PI[so].wr_open++; if(se>=0) PI[se].wr_open++;
  *pid=100000+nA; nA++; actors_alive++; if((u64)actors_alive>O->c[C_MAXACT]) O->c[C_MAXACT]=actors_alive;
  spoint();
  return 0;
}
int posix_spawn(pid_t*pid,const char*file,const posix_spawn_file_actions_t*fa,const posix_spawnattr_t*at,char*const argv[],char*const envp[]){ return posix_spawnp(pid,file,fa,at,argv,envp); }
static void actor_die(struct actor*a,int status){
  a->alive=0; actors_alive--; a->status=status; O->c[C_SOLVER_EXIT]++;
  if(a->in_pipe>=0){PI[a->in_pipe].rd_open--;wake_pipe(a->in_pipe);} if(a->out_pipe>=0){PI[a->out_pipe].wr_open--;wake_pipe(a->out_pipe);} if(a->err_pipe>=0){PI[a->err_pipe].wr_open--;wake_pipe(a->err_pipe);}
  a->in_pipe=a->out_pipe=a->err_pipe=-1;
  for(int i=0;i<nT;i++) if(T[i].state==S_WAITPID) T[i].state=S_RUN;
}
static const struct op*actor_op(struct actor*a){ static const struct op ex={4,0,0,0}; struct script*s=&SC[a->script]; return a->ip<s->n?&s->ops[a->ip]:&ex; }
static int actor_ready(struct actor*a){
  if(!a->used||!a->alive||a->sleeping) return 0;
  const struct op*o=actor_op(a);
  switch(o->op){
    case 1: if(a->in_pipe<0) return 1; return PI[a->in_pipe].len>0||PI[a->in_pipe].wr_open==0;
    case 2: case 8: { int p=o->a?a->err_pipe:a->out_pipe; if(p<0) return 1; return PI[p].len<PI[p].cap||PI[p].rd_open==0; }
    case 7: return 0;
    default: return 1;
  }
}
static void actor_step(int ai){
  struct actor*a=&A[ai]; const struct op*o=actor_op(a); O->c[C_SOLVER_OPS]++;
  switch(o->op){
    case 1: { // read b bytes (0: until end of file)
      if(a->in_pipe<0){a->ip++;a->progress=0;return;}
      struct pipe_*p=&PI[a->in_pipe];
      if(!p->len){ a->ip++; a->progress=0; return; } // EOF
      size_t n=p->len; if(o->b&&n>o->b-a->progress) n=o->b-a->progress;
      if(a->gotlen+n>a->gotcap){ size_t nc=(a->gotlen+n)*2; u8*g=own_malloc(nc,16); if(!g) BUG("oom in actor"); memcpy(g,a->got,a->gotlen); a->got=g; a->gotcap=nc; }
      for(size_t i=0;i<n;i++) a->got[a->gotlen+i]=p->buf[(p->head+i)%p->cap];
      stream_put(a->stream,a->got+a->gotlen,n);
      a->gotlen+=n; p->head=(p->head+n)%p->cap; p->len-=n; a->progress+=n; wake_pipe(a->in_pipe);
      if(o->b&&a->progress>=o->b){a->ip++;a->progress=0;}
      return; }
    case 2: case 8: { // write blob (or junk)
      int pi=o->a?a->err_pipe:a->out_pipe; const u8*d=0; u64 len=0; u8 junk=0;
      if(o->op==8){ len=o->b; junk=(u8)o->c; }
      else { int bi=-1; if(o->b!=(u64)-1) bi=(int)o->b; else { if(a->blob<0){ for(int k=0;k<nBL&&a->blob<0;k++) if(BL[k].klen&&memmem(a->got,a->gotlen,BL[k].key,BL[k].klen)) a->blob=k; if(a->blob<0) for(int k=0;k<nBL&&a->blob<0;k++) if(!BL[k].klen) a->blob=k; } bi=a->blob; }
        if(bi>=0&&bi<nBL){ d=BL[bi].data; len=BL[bi].len; } if(o->c&&o->c<len) len=o->c; }
      if(pi<0||a->progress>=len){ a->ip++; a->progress=0; return; }
      struct pipe_*p=&PI[pi];
      if(!p->rd_open){ O->c[C_SOLVER_KILL]++; actor_die(a,SIGPIPE); return; }
      size_t n=p->cap-p->len; if(n>len-a->progress) n=len-a->progress; if(n>1&&rbelow(&R_io,2)) n=1+rbelow(&R_io,n);
      for(size_t i=0;i<n;i++) p->buf[(p->head+p->len+i)%p->cap]=d?d[a->progress+i]:junk;
      p->len+=n; a->progress+=n; wake_pipe(pi);
      if(a->progress>=len){a->ip++;a->progress=0;}
      return; }
    case 3: { int*pp=o->a==0?&a->in_pipe:o->a==1?&a->out_pipe:&a->err_pipe; if(*pp>=0){ if(o->a==0) PI[*pp].rd_open--; else PI[*pp].wr_open--; wake_pipe(*pp); *pp=-1; } a->ip++; a->progress=0; return; }
    case 4: actor_die(a,((int)o->b&0xff)<<8); return;
    case 5: O->c[C_SOLVER_KILL]++; actor_die(a,(int)o->b&0x7f); return;
    case 6: if(!a->progress){ a->progress=1; a->sleeping=1; a->wake_at=g_now+o->b; } else { a->ip++; a->progress=0; } return;
    case 7: O->c[C_SOLVER_HANG]++; return;
    default: BUG("bad actor op");
  }
}
static pid_t sim_wait(pid_t pid,int*st,int opt){
  spoint(); O->c[C_WAITS]++;
  for(u64 i=0;i<nIOF;i++) if(IOF[i].kind==F_WAIT_ERR&&IOF[i].a==O->c[C_WAITS]){ O->c[C_WAIT_EINTR]++; errno=IOF[i].c; return -1; }
  int k=pid-100000; if(k<0||k>=nA||A[k].waited){errno=ECHILD;return -1;}
  while(A[k].alive){ if(opt&WNOHANG) return 0; T[cur].state=S_WAITPID; block_here(); }
  A[k].waited=1; if(st)*st=A[k].status; return pid;
}
pid_t waitpid(pid_t pid,int*st,int opt){ if(!g_active) return rawe(SYS_wait4,pid,(long)st,opt,0,0,0); return sim_wait(pid,st,opt); }
pid_t wait4(pid_t pid,int*st,int opt,struct rusage*r){ if(!g_active) return rawe(SYS_wait4,pid,(long)st,opt,(long)r,0,0); return sim_wait(pid,st,opt); }
int waitid(idtype_t t,id_t id,siginfo_t*si,int opt){ if(!g_active) return rawe(SYS_waitid,t,id,(long)si,opt,0,0); int st; pid_t p=sim_wait(id,&st,opt&WNOHANG); if(p<0) return -1; if(si){ memset(si,0,sizeof*si); si->si_pid=p; if(p){ si->si_code=WIFEXITED(st)?CLD_EXITED:CLD_KILLED; si->si_status=WIFEXITED(st)?WEXITSTATUS(st):WTERMSIG(st);} } return 0; }
int kill(pid_t pid,int sig){ if(!g_active) return rawe(SYS_kill,pid,sig,0,0,0,0); int k=pid-100000; if(k>=0&&k<nA){ if(A[k].alive&&sig) actor_die(&A[k],sig); return 0; } if(pid==getpid()) return rawe(SYS_kill,pid,sig,0,0,0,0); errno=ESRCH; return -1; }
pid_t fork(void){ if(g_active){ errno=ENOSYS; return -1; } static pid_t(*real)(void); if(!real) real=dlsym(RTLD_NEXT,"fork"); return real(); }

// ---------------------------------------------------------------- instrumentation entry points
#define ORD int o
#define AT(sz,ty) \
 ty __tsan_atomic##sz##_load(const volatile ty*a,ORD){ point(K_A,(void*)a); return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
 void __tsan_atomic##sz##_store(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); __atomic_store_n(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_exchange(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_add(volatile ty*a,ty v,ORD){ point(K_R,(void*)a); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_sub(volatile ty*a,ty v,ORD){ point(K_R,(void*)a); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_and(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_or(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_xor(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_fetch_nand(volatile ty*a,ty v,ORD){ point(K_A,(void*)a); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST);} \
 ty __tsan_atomic##sz##_compare_exchange_val(volatile ty*a,ty c,ty v,ORD,int f){ point(K_A,(void*)a); __atomic_compare_exchange_n(a,&c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c;} \
 int __tsan_atomic##sz##_compare_exchange_strong(volatile ty*a,ty*c,ty v,ORD,int f){ point(K_A,(void*)a); return __atomic_compare_exchange_n(a,c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
 int __tsan_atomic##sz##_compare_exchange_weak(volatile ty*a,ty*c,ty v,ORD,int f){ point(K_A,(void*)a); return __atomic_compare_exchange_n(a,c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);}
AT(8,u8) AT(16,uint16_t) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(ORD){ __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(ORD){}
void __tsan_init(void){}
void __tsan_func_entry(void*p){} void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void*a){} void __tsan_write##n(void*a){} void __tsan_unaligned_read##n(void*a){} void __tsan_unaligned_write##n(void*a){} void __tsan_volatile_read##n(void*a){} void __tsan_volatile_write##n(void*a){} void __tsan_unaligned_volatile_read##n(void*a){} void __tsan_unaligned_volatile_write##n(void*a){} void __tsan_read_write##n(void*a){} void __tsan_unaligned_read_write##n(void*a){}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void*a){} void __tsan_vptr_update(void*a,void*b){} void __tsan_read_range(void*a,long n){} void __tsan_write_range(void*a,long n){}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
void*__tsan_memcpy(void*a,const void*b,size_t n){return memcpy(a,b,n);} void*__tsan_memmove(void*a,const void*b,size_t n){return memmove(a,b,n);} void*__tsan_memset(void*a,int c,size_t n){return memset(a,c,n);}

// harness-visible helpers (used by /verif/harness only)
u64 sim_event(void){ return g_ev; }
int sim_tid(void){ return my_tid; }
int sim_threads(void){ return nT; }
u64 sim_exit_event(int t){ return t>0&&t<nT&&T[t].state==S_DONE? T[t].exit_ev : ~0ull; } // when the thread's function returned

// ---------------------------------------------------------------- one run, and the fork server
int __real_main(int,char**,char**);
static char*argv_buf[256]; static int argc_buf;
static void load_config(void){
  u8*p=g_in+8; memset(P,0,sizeof P);
  for(;;){ u32 tag,len; memcpy(&tag,p,4); memcpy(&len,p+4,4); p+=8;
    if(tag==T_END) break;
    switch(tag){
      case T_ARGV: { u8*q=p; while(q<p+len){ if(argc_buf<255) argv_buf[argc_buf++]=(char*)q; q+=strlen((char*)q)+1; } break; }
      case T_FILE: { u32 nl; memcpy(&nl,p,4); if(nF>=MAXF||nl>=120) BUG("files"); memcpy(F[nF].name,p+4,nl); F[nF].name[nl]=0; F[nF].data=p+4+nl; F[nF].len=len-4-nl; F[nF].stream=-1; nF++; break; }
      case T_STDIN: in_stdin=p; in_stdin_len=len; break;
      case T_PARAM: for(u32 i=0;i+16<=len;i+=16){ u64 k,v; memcpy(&k,p+i,8); memcpy(&v,p+i+8,8); if(k<P_NPARAMS) P[k]=v; } break;
      case T_SWITCH: rp=(u64*)p; rp_n=len/16; break;
      case T_IOFAULT: IOF=(struct iof*)p; nIOF=len/sizeof(struct iof); break;
      case T_SOLVER: { u32 n; memcpy(&n,p,4); if(nSC>=MAXSCRIPT) BUG("scripts"); SC[nSC].n=n; SC[nSC].ops=(struct op*)(p+8); nSC++; break; }
      case T_BLOB: { u32 kl; memcpy(&kl,p,4); if(nBL>=MAXBLOB) BUG("blobs"); BL[nBL].klen=kl; BL[nBL].key=p+4; BL[nBL].data=p+4+kl; BL[nBL].len=len-4-kl; nBL++; break; }
    }
    p+=(len+7)&~7u;
  }
  if(!P[P_MAX_EVENTS]) P[P_MAX_EVENTS]=100000000;
  R_sched.s=P[P_SCHED_SEED]; R_aux.s=P[P_SCHED_SEED]^0xa5a5a5a5a5ull; R_io.s=P[P_IO_SEED]; R_clock.s=P[P_CLOCK_SEED]; R_hash.s=P[P_HASH_SEED]; R_layout.s=P[P_LAYOUT_SEED]; main_frame=(u64)__builtin_frame_address(0);
  for(int i=0;i<5;i++){ static const int par[5]={P_GAP_ACOLD,P_GAP_AHOT,P_GAP_RCOLD,P_GAP_RHOT,P_GAP_SYS}; gapleft[i]=P[par[i]]?gapdraw(P[par[i]]):0; }
  pct_low=999999; pct_n=P[P_PCT_DEPTH]<60?P[P_PCT_DEPTH]:60;
  for(int i=0;i<pct_n;i++) pct_pts[i]=1+rbelow(&R_sched,P[P_PCT_RANGE]?P[P_PCT_RANGE]:1000);
  for(int i=0;i<pct_n;i++) for(int j=i+1;j<pct_n;j++) if(pct_pts[j]<pct_pts[i]){u64 t=pct_pts[i];pct_pts[i]=pct_pts[j];pct_pts[j]=t;}
}
static int run_child(void){
  memset(O,0,sizeof*O); O->magic=SIM_MAGIC; O->sched_hash=0xcbf29ce484222325ull;
  load_config();
  T[0].state=S_RUN; T[0].real=pthread_self(); nT=1; cur=0; n_live=1; T[0].prio=P[P_MODE]==2?1000000+rbelow(&R_sched,1000000):0; my_tid=0;
  s_out=new_stream("stdout"); s_err=new_stream("stderr");
  g_now=1000000000ull;
  struct rlimit rl={P[P_CPU_SECONDS]?P[P_CPU_SECONDS]:20,(P[P_CPU_SECONDS]?P[P_CPU_SECONDS]:20)+1}; raw6(SYS_setrlimit,RLIMIT_CPU,(long)&rl,0,0,0,0);
  struct rlimit rc={0,0}; raw6(SYS_setrlimit,RLIMIT_CORE,(long)&rc,0,0,0,0);
  g_active=1;
  int r=__real_main(argc_buf,argv_buf,environ);
  O->events=g_ev; 
  return r;
}
int __wrap_main(int argc,char**argv,char**envp){
  const char*shm=getenv("SIM_SHM");
  if(!shm) return __real_main(argc,argv,envp);
  int fd=rawe(SYS_openat,AT_FDCWD,(long)shm,O_RDWR,0,0,0);
  if(fd<0) return 80;
  u8*m=(u8*)raw6(SYS_mmap,0x180000000000ull,IN_CAP+OUT_CAP,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED_NOREPLACE,fd,0);
  if((u64)m!=0x180000000000ull) return 81;
  raw6(SYS_close,fd,0,0,0,0,0);
  g_in=m; O=(struct out*)(m+IN_CAP); size_t off=(sizeof(struct out)+4095)&~4095ul; g_sw=(u64*)(m+IN_CAP+off); g_data=m+IN_CAP+off+SWITCH_CAP*16; g_datacap=OUT_CAP-off-SWITCH_CAP*16;
  real_pthread_create=dlsym(RTLD_NEXT,"pthread_create"); real_pthread_join=dlsym(RTLD_NEXT,"pthread_join"); real_pthread_detach=dlsym(RTLD_NEXT,"pthread_detach");
  pid_t(*real_fork)(void)=dlsym(RTLD_NEXT,"fork");
  const char*cpu=getenv("SIM_CPU");
  unsetenv("SIM_SHM"); unsetenv("SIM_CPU");
  if(cpu){ u64 mask[16]={0}; int c=atoi(cpu); mask[c/64]|=1ull<<(c%64); raw6(SYS_sched_setaffinity,0,sizeof mask,(long)mask,0,0,0); }
  // protocol: read one byte on fd 0, run, write 8 bytes on fd 1
  for(;;){
    u8 b; long r=raw6(SYS_read,0,(long)&b,1,0,0,0);
    if(r<=0) raw6(SYS_exit_group,0,0,0,0,0,0);
    int pid=real_fork();
    if(pid==0) return run_child();
    int st=0; while(raw6(SYS_wait4,pid,(long)&st,0,0,0,0)==-EINTR);
    O->wait_status=(u32)st;
    u64 rep=(u32)st; raw6(SYS_write,1,(long)&rep,8,0,0,0);
  }
}
// keep the event counter current when the program leaves through exit()
__attribute__((destructor)) static void fin(void){ if(g_active){ O->events=g_ev; O->simtime=g_now; int z=0; for(int i=0;i<nA;i++) if(!A[i].waited) z++; O->c[C_ZOMBIES]=z; } }
