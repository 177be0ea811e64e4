// The controller: a controllable MPI in which every rank is a coroutine of one process, a seeded
// scheduler, and the case runner (one forked child per case).
#include "mpi.h"
#include "vh.h"
#include <new>
#include <cstdint>
#include <ucontext.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <algorithm>
#include <fstream>
#include <sstream>

// ================================================================ guarded allocation
// Every block the code under test makes (operator new, and malloc through the rank libraries' --wrap) ends in a
// guard zone.  A write past its end is noticed when the block is released or at the end of the operation.
namespace guard {
struct Head { Head *prev, *next; size_t size; uint64_t magic; };
const uint64_t LIVE = 0x600DB10C5A5A1234ULL, DEAD = 0xDEADB10C5A5A1234ULL;
const size_t TAIL = 16;
Head list = { &list, &list, 0, 0 };
bool intact(Head* h) { unsigned char* t = (unsigned char*)(h+1) + h->size; for (size_t i=0;i<TAIL;i++) if (t[i]!=0xC3) return false; return true; }
void bad(const char* w) { static const char m[] = "guarded memory: "; if (write(2,m,sizeof m-1)<0 || write(2,w,strlen(w))<0 || write(2,"\n",1)<0) {} abort(); }
void* get(size_t n) {
  Head* h = (Head*)malloc(sizeof(Head)+n+TAIL);
  if (!h) return NULL;
  h->size = n; h->magic = LIVE; h->next = &list; h->prev = list.prev; list.prev->next = h; list.prev = h;
  memset((char*)(h+1)+n, 0xC3, TAIL);
  return h+1;
}
bool mine(void* p) { return ((Head*)p-1)->magic==LIVE; }
void put(void* p) {
  Head* h = (Head*)p-1;
  if (h->magic!=LIVE) bad("released a block that is not held");
  if (!intact(h)) bad("write past the end of a block");
  h->prev->next = h->next; h->next->prev = h->prev; h->magic = DEAD;
  free(h);
}
void check() { for (Head* h=list.next; h!=&list; h=h->next) if (h->magic!=LIVE || !intact(h)) bad("write past the end of a block"); }
}
void* operator new(size_t n) { void* p=guard::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p=guard::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return guard::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return guard::get(n); }
void operator delete(void* p) noexcept { if (p) guard::put(p); }
void operator delete[](void* p) noexcept { if (p) guard::put(p); }
void operator delete(void* p, size_t) noexcept { if (p) guard::put(p); }
void operator delete[](void* p, size_t) noexcept { if (p) guard::put(p); }
extern "C" {
void* __wrap_malloc(size_t n) { return guard::get(n); }
void* __wrap_calloc(size_t a, size_t b) { void* p=guard::get(a*b); if (p) memset(p,0,a*b); return p; }
void __wrap_free(void* p) { if (!p) return; if (((guard::Head*)p-1)->magic==guard::LIVE || ((guard::Head*)p-1)->magic==guard::DEAD) guard::put(p); else free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return guard::get(n);
  guard::Head* h=(guard::Head*)p-1;
  if (h->magic!=guard::LIVE) return realloc(p,n);
  void* q=guard::get(n); if (!q) return NULL;
  memcpy(q,p,std::min(n,h->size)); guard::put(p); return q;
}
}

namespace {
const int MAXN = 64;
struct OpScript { std::string kind; std::vector<std::string> args; };
struct Case { std::string id; int n; unsigned seed; int mode; std::vector<OpScript> ops; };

// ---------------------------------------------------------------- state of the running case
Case* C = NULL;
int N = 0;
int outfd = -1;
std::string caseDir;
struct Shared { int op[MAXN]; char why[256]; int failed; };
Shared* sh = NULL;

uint64_t rngs;
uint32_t rnd() { // splitmix64
  uint64_t z = (rngs += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return (uint32_t)((z ^ (z >> 31)) >> 16);
}
uint32_t rnd(uint32_t n) { return n ? rnd() % n : 0; }

struct Rank { ucontext_t ctx; bool done; bool stopped; int weight; };
std::vector<Rank> ranks;
ucontext_t mainctx;
int cur = -1;
long step = 0, idle = 0;
vh_main_t mains[MAXN];

struct Msg { long id; int comm, src, dst, tag; std::vector<char> data; long visible; bool sync; int req; bool matched; };
typedef std::pair<int, std::pair<int,int> > Key; // comm,(dst,src) as comm-local ranks
std::map<Key, std::deque<Msg*> > queues;
long nmsgs = 0;
struct CommS { std::vector<int> members; std::vector<long> seq; int freed; };
std::vector<CommS> comms; // by id
enum { RQ_SEND=1, RQ_RECV, RQ_COLL };
struct Req { int kind; bool active, done; long doneAt; int owner;
  void* buf; int count; MPI_Datatype type; int src, tag, comm; MPI_Status st;
  struct Coll* coll; void* rbuf; MPI_Op op; };
std::vector<Req> reqs;

struct Coll { std::string kind; int n, arrived, left; std::vector<std::vector<char> > in; std::vector<char> here;
  std::vector<std::vector<int> > counts, displs; int root, op, type, count; int result; std::vector<int> vals, keys; std::vector<int> results; std::vector<long> leaveAt; };
std::map<std::pair<int,long>, Coll*> colls;

void writeAll(const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t k = write(outfd, s.data()+off, s.size()-off);
    if (k <= 0) _exit(97);
    off += k;
  }
}
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (size_t i=0;i<s.size();i++) { unsigned char c=s[i];
    if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) o+=' '; else o+=c; }
  return o+"\"";
}
void failcase(const std::string& why) {
  snprintf(sh->why, sizeof sh->why, "%s", why.c_str());
  sh->failed = 1;
  fflush(NULL);
  _exit(96);
}
// ---------------------------------------------------------------- scheduling
int pick() {
  std::vector<int> live;
  for (int i=0;i<N;i++) if (!ranks[i].done && !ranks[i].stopped) live.push_back(i);
  if (live.empty()) return -1;
  if (C->mode==0) { for (int k=1;k<=N;k++) { int r=(cur+k+N)%N; if (!ranks[r].done&&!ranks[r].stopped) return r; } }
  if (C->mode==1) return live[rnd(live.size())];
  // weighted: some ranks are slow for a while
  if (step%4096==0 || step==1) for (int i=0;i<N;i++) ranks[i].weight = rnd(3)==0 ? 1 : (rnd(3)==0 ? 200 : 20);
  long tot=0; for (size_t i=0;i<live.size();i++) tot+=ranks[live[i]].weight;
  long x = rnd(tot);
  for (size_t i=0;i<live.size();i++) { x-=ranks[live[i]].weight; if (x<0) return live[i]; }
  return live.back();
}
void switchTo(int r) {
  int from = cur; cur = r;
  if (from==r) return;
  if (from<0) swapcontext(&mainctx,&ranks[r].ctx);
  else swapcontext(&ranks[from].ctx,&ranks[r].ctx);
}
void finishAll() { // all ranks done or stopped: back to the main context
  int from = cur; cur = -1;
  swapcontext(&ranks[from].ctx,&mainctx);
}
void yield_() {
  step++; idle++;
  if (idle > 60000L*N) failcase("hang: no rank makes progress");
  int r = pick();
  if (r<0) finishAll(); else switchTo(r);
}
void maybeYield() { if (C->mode==0) { return; } if (C->mode==1 ? rnd(3)==0 : rnd(6)==0) yield_(); else step++; }
void progress_() { idle = 0; }
long delay() {
  if (C->mode==0) return 0;
  uint32_t x = rnd(10);
  if (x<4) return 0;
  if (x<8) return rnd(30);
  if (x<9) return rnd(300);
  return rnd(3000);
}
void trampoline(int r) {
  mains[r](r,N);
  ranks[r].done = true;
  progress_();
  int x = pick();
  if (x<0) finishAll(); else switchTo(x);
  abort();
}
// ---------------------------------------------------------------- helpers
CommS& comm(int c) {
  if (c<=0 || c>=(int)comms.size()) failcase("invalid communicator used");
  if (c==MPI_COMM_SELF) return comms[c];
  if (comms[c].members.empty()) failcase("freed communicator used");
  return comms[c];
}
int local(int c) {
  if (c==MPI_COMM_SELF) return 0;
  CommS& k = comm(c);
  for (size_t i=0;i<k.members.size();i++) if (k.members[i]==cur) return i;
  failcase("communicator used by a process outside it"); return -1;
}
int csize(int c) { return c==MPI_COMM_SELF ? 1 : (int)comm(c).members.size(); }
int qcomm(int c) { return c==MPI_COMM_SELF ? -1-cur : c; }
size_t tsize(int t) {
  switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_PACKED: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_INT32_T: case MPI_UINT32_T: case MPI_FLOAT: return 4;
    case MPI_2INT: return 8;
    case MPI_DOUBLE_INT: case MPI_LONG_INT: return 16;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: return 8;
  }
  failcase("invalid datatype"); return 0;
}
template <class T> void red(T* a, const T* b, int n, int op) {
  for (int i=0;i<n;i++) switch (op) {
    case MPI_SUM: a[i]=a[i]+b[i]; break;
    case MPI_PROD: a[i]=a[i]*b[i]; break;
    case MPI_MAX: a[i]=b[i]>a[i]?b[i]:a[i]; break;
    case MPI_MIN: a[i]=b[i]<a[i]?b[i]:a[i]; break;
    case MPI_LAND: a[i]=(a[i]&&b[i]); break;
    case MPI_LOR: a[i]=(a[i]||b[i]); break;
    case MPI_LXOR: a[i]=((!a[i])!=(!b[i])); break;
    default: failcase("unsupported reduction");
  }
}
template <class T> void redi(T* a, const T* b, int n, int op) {
  for (int i=0;i<n;i++) switch (op) {
    case MPI_BAND: a[i]=a[i]&b[i]; break;
    case MPI_BOR: a[i]=a[i]|b[i]; break;
    case MPI_BXOR: a[i]=a[i]^b[i]; break;
    default: { T x=a[i]; red(&x,b+i,1,op); a[i]=x; }
  }
}
struct DI { double d; int i; }; struct II { int d; int i; };
template <class T> void redloc(T* a, const T* b, int n, int op) {
  for (int i=0;i<n;i++) { bool less = b[i].d<a[i].d || (b[i].d==a[i].d&&b[i].i<a[i].i);
    bool more = b[i].d>a[i].d || (b[i].d==a[i].d&&b[i].i<a[i].i);
    if (op==MPI_MINLOC ? less : more) a[i]=b[i]; }
}
void reduceInto(std::vector<char>& acc, const std::vector<char>& x, int n, int t, int op) {
  void* a=acc.data(); const void* b=x.data();
  switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi((signed char*)a,(const signed char*)b,n,op); break;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: redi((unsigned char*)a,(const unsigned char*)b,n,op); break;
    case MPI_C_BOOL: case MPI_CXX_BOOL: redi((unsigned char*)a,(const unsigned char*)b,n,op); break;
    case MPI_SHORT: case MPI_INT16_T: redi((short*)a,(const short*)b,n,op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi((unsigned short*)a,(const unsigned short*)b,n,op); break;
    case MPI_INT: case MPI_INT32_T: redi((int*)a,(const int*)b,n,op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: redi((unsigned*)a,(const unsigned*)b,n,op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: redi((long*)a,(const long*)b,n,op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi((unsigned long*)a,(const unsigned long*)b,n,op); break;
    case MPI_FLOAT: red((float*)a,(const float*)b,n,op); break;
    case MPI_DOUBLE: red((double*)a,(const double*)b,n,op); break;
    case MPI_2INT: redloc((II*)a,(const II*)b,n,op); break;
    case MPI_DOUBLE_INT: redloc((DI*)a,(const DI*)b,n,op); break;
    default: failcase("unsupported reduction type");
  }
}
int newReq(int kind) {
  Req r; memset(&r,0,sizeof r); r.kind=kind; r.active=true; r.owner=cur; reqs.push_back(r); return (int)reqs.size()-1;
}
Msg* findMsg(int c, int src, int tag) { // for the running rank; NULL if nothing matching is visible
  int me = local(c), n = csize(c), qc = qcomm(c);
  std::vector<Msg*> cand;
  for (int s=0;s<n;s++) {
    if (src!=MPI_ANY_SOURCE && s!=src) continue;
    std::map<Key,std::deque<Msg*> >::iterator q = queues.find(Key(qc,std::make_pair(me,s)));
    if (q==queues.end()) continue;
    for (size_t i=0;i<q->second.size();i++) {
      Msg* m=q->second[i];
      if (m->visible>step) break;
      if (tag==MPI_ANY_TAG || m->tag==tag) { cand.push_back(m); break; }
    }
  }
  if (cand.empty()) return NULL;
  if (C->mode==0) return cand[0];
  return cand[rnd(cand.size())];
}
void take(Msg* m, void* buf, int count, int type, MPI_Status* st) {
  std::deque<Msg*>& q = queues[Key(m->comm,std::make_pair(m->dst,m->src))];
  q.erase(std::find(q.begin(),q.end(),m));
  if (m->data.size() > (size_t)count*tsize(type)) failcase("message truncated: receive buffer too small");
  if (!m->data.empty()) memcpy(buf,m->data.data(),m->data.size());
  if (st && st!=MPI_STATUS_IGNORE) { st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->count_=(int)m->data.size(); st->cancelled_=0; }
  if (m->req) { Req& r = reqs[m->req]; r.done=true; r.doneAt=step+delay(); }
  m->matched=true;
  delete m;
  progress_();
}
int post(const void* buf, int count, int type, int dst, int tag, int c, bool sync) {
  int me=local(c);
  if (dst==MPI_PROC_NULL) { int q=newReq(RQ_SEND); reqs[q].done=true; return q; }
  if (dst<0||dst>=csize(c)) failcase("send to an invalid rank");
  if (count<0) failcase("negative count");
  if (tag<0) failcase("negative tag");
  Msg* m=new Msg; m->id=++nmsgs; m->comm=qcomm(c); m->src=me; m->dst=dst; m->tag=tag; m->sync=sync; m->matched=false;
  size_t k=(size_t)count*tsize(type);
  m->data.assign((const char*)buf,(const char*)buf+k);
  m->visible=step+delay();
  int q=newReq(RQ_SEND);
  if (sync) m->req=q; else { m->req=0; reqs[q].done=true; reqs[q].doneAt=step+delay()/4; }
  queues[Key(m->comm,std::make_pair(dst,me))].push_back(m);
  progress_();
  return q;
}
Coll* enter(const char* kind, int c, const void* in, size_t bytes, int root, int op, int type, int count) {
  CommS& k = comm(c);
  int me=local(c), n=csize(c);
  long s;
  std::pair<int,long> key;
  if (c==MPI_COMM_SELF) { static long selfseq=0; key=std::make_pair(-1-cur,++selfseq); }
  else { s=k.seq[me]++; key=std::make_pair(c,s); }
  Coll*& x = colls[key];
  if (!x) { x=new Coll; x->kind=kind; x->n=n; x->arrived=0; x->left=0; x->in.resize(n); x->here.assign(n,0); x->counts.resize(n);
    x->displs.resize(n); x->root=root; x->op=op; x->type=type; x->count=count; x->result=0; x->vals.resize(n); x->keys.resize(n);
    x->results.resize(n); x->leaveAt.assign(n,-1); }
  if (x->kind!=kind) failcase(std::string("mismatched collectives: ")+x->kind+" and "+kind);
  if (x->root!=root) failcase(std::string("different roots in ")+kind);
  if (x->op!=op || x->type!=type) failcase(std::string("different operations or types in ")+kind);
  if (x->count!=count) failcase(std::string("different counts in ")+kind);
  x->in[me].assign((const char*)in,(const char*)in+bytes);
  return x;
}
void arrive(Coll* x, int me) { x->here[me]=1; x->arrived++; if (x->arrived==x->n) progress_(); }
void waitAll(Coll* x) {
  bool first=true;
  while (x->arrived<x->n) { yield_(); first=false; }
  (void)first;
  long until = step+delay();
  while (step<until) yield_();
  progress_();
}
void leave(Coll* x) { x->left++; if (x->left==x->n) { for (auto it=colls.begin();it!=colls.end();++it) if (it->second==x) { colls.erase(it); break; } delete x; } }
bool reqReady(int q) {
  Req& r=reqs[q];
  if (r.kind==RQ_SEND) return r.done && r.doneAt<=step;
  if (r.kind==RQ_RECV) {
    if (r.done) return true;
    // non-overtaking among receives posted by this rank: earlier posted receives match first
    for (int j=1;j<q;j++) { Req& e=reqs[j];
      if (e.kind==RQ_RECV&&e.active&&!e.done&&e.owner==r.owner&&e.comm==r.comm) {
        Msg* m=findMsg(e.comm,e.src,e.tag);
        if (m) { take(m,e.buf,e.count,e.type,&e.st); e.done=true; } } }
    Msg* m=findMsg(r.comm,r.src,r.tag);
    if (!m) return false;
    take(m,r.buf,r.count,r.type,&r.st); r.done=true; return true;
  }
  // collective
  return r.coll->arrived==r.coll->n;
}
void reqFinish(int q, MPI_Status* st) {
  Req& r=reqs[q]; r.active=false;
  if (st && r.kind==RQ_RECV) *st=r.st;
  if (r.kind==RQ_COLL) {
    if (r.rbuf) { std::vector<char> acc=r.coll->in[0];
      for (int i=1;i<r.coll->n;i++) reduceInto(acc,r.coll->in[i],r.coll->count,r.coll->type,r.coll->op);
      memcpy(r.rbuf,acc.data(),acc.size()); }
    leave(r.coll);
  }
}
} // namespace

// ================================================================ MPI
extern "C" {
static int inited[MAXN], finalized[MAXN];
int MPI_Init(int*,char***) { inited[cur]=1; return 0; }
int MPI_Init_thread(int*,char***,int r,int* p) { inited[cur]=1; if (p) *p=r; return 0; }
int MPI_Query_thread(int* p) { *p=MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) { finalized[cur]=1; return 0; }
int MPI_Initialized(int* f) { *f=inited[cur]; return 0; }
int MPI_Finalized(int* f) { *f=finalized[cur]; return 0; }
int MPI_Abort(MPI_Comm,int) { failcase("MPI_Abort called"); return 0; }
double MPI_Wtime(void) { return step*1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* n,int* l) { strcpy(n,"fake"); *l=4; return 0; }
int MPI_Get_version(int* a,int* b) { *a=3; *b=1; return 0; }
int MPI_Comm_size(MPI_Comm c,int* s) { *s=csize(c); return 0; }
int MPI_Comm_rank(MPI_Comm c,int* r) { *r=local(c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler) { return 0; }
int MPI_Comm_get_attr(MPI_Comm,int,void* v,int* f) { static int ub=32767; *(int**)v=&ub; *f=1; return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int* r) { if (a==b) *r=MPI_IDENT; else if (csize(a)!=csize(b)) *r=MPI_UNEQUAL;
  else { std::vector<int> x=comms[a].members,y=comms[b].members; if (a==2) x.assign(1,cur); if (b==2) y.assign(1,cur);
    if (x==y) *r=MPI_CONGRUENT; else { std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); *r= x==y?MPI_SIMILAR:MPI_UNEQUAL; } } return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
static int newComm(const std::vector<int>& m) { CommS k; k.members=m; k.seq.assign(m.size(),0); k.freed=0; comms.push_back(k); return (int)comms.size()-1; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm* o) {
  int me=local(c);
  if (c==MPI_COMM_SELF) { *o=newComm(std::vector<int>(1,cur)); return 0; }
  Coll* x=enter("Comm_dup",c,NULL,0,0,0,0,0); arrive(x,me);
  if (!x->result) x->result=newComm(comm(c).members);
  waitAll(x); *o=x->result; leave(x); return 0;
}
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm* o) {
  int me=local(c);
  if (c==MPI_COMM_SELF) { *o = color==MPI_UNDEFINED?MPI_COMM_NULL:newComm(std::vector<int>(1,cur)); return 0; }
  Coll* x=enter("Comm_split",c,NULL,0,0,0,0,0); x->vals[me]=color; x->keys[me]=key; arrive(x,me);
  waitAll(x);
  if (!x->result) { x->result=1; std::map<int,std::vector<std::pair<int,int> > > g;
    for (int i=0;i<x->n;i++) if (x->vals[i]!=MPI_UNDEFINED) g[x->vals[i]].push_back(std::make_pair(x->keys[i],i));
    std::vector<int> mem=comm(c).members;
    for (auto& e: g) { std::stable_sort(e.second.begin(),e.second.end()); std::vector<int> m; for (auto& p: e.second) m.push_back(mem[p.second]);
      int id=newComm(m); for (auto& p: e.second) x->results[p.second]=id; } }
  *o = color==MPI_UNDEFINED?MPI_COMM_NULL:x->results[me]; leave(x); return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  if (*c==MPI_COMM_WORLD||*c==MPI_COMM_SELF||*c==MPI_COMM_NULL) failcase("predefined or null communicator freed");
  local(*c); CommS& k=comms[*c]; k.freed++;
  // the handle dies for everybody once everybody has freed it
  if (k.freed==(int)k.members.size()) {
    for (auto& q: queues) if (q.first.first==*c && !q.second.empty()) failcase("communicator freed with undelivered messages");
    k.members.clear();
  }
  *c=MPI_COMM_NULL; maybeYield(); return 0;
}
int MPI_Type_size(MPI_Datatype t,int* s) { *s=(int)tsize(t); return 0; }
int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* c) { size_t z=tsize(t); *c = s->count_%z ? MPI_UNDEFINED : (int)(s->count_/z); return 0; }
int MPI_Wait(MPI_Request* q,MPI_Status* st) {
  if (*q==MPI_REQUEST_NULL) return 0;
  while (!reqReady(*q)) yield_();
  reqFinish(*q,st); *q=MPI_REQUEST_NULL; progress_(); return 0;
}
int MPI_Test(MPI_Request* q,int* f,MPI_Status* st) {
  if (*q==MPI_REQUEST_NULL) { *f=1; return 0; }
  if (*q<0||*q>=(int)reqs.size()||!reqs[*q].active) failcase("invalid request tested");
  if (reqReady(*q)) { reqFinish(*q,st); *q=MPI_REQUEST_NULL; *f=1; progress_(); maybeYield(); return 0; }
  *f=0; yield_(); return 0;
}
int MPI_Testall(int n,MPI_Request* q,int* f,MPI_Status* st) {
  for (int i=0;i<n;i++) if (q[i]!=MPI_REQUEST_NULL&&!reqReady(q[i])) { *f=0; yield_(); return 0; }
  for (int i=0;i<n;i++) if (q[i]!=MPI_REQUEST_NULL) { reqFinish(q[i],st?st+i:NULL); q[i]=MPI_REQUEST_NULL; }
  *f=1; progress_(); return 0;
}
int MPI_Waitall(int n,MPI_Request* q,MPI_Status* st) { for (int i=0;i<n;i++) MPI_Wait(q+i,st?st+i:NULL); return 0; }
int MPI_Testany(int n,MPI_Request* q,int* ix,int* f,MPI_Status* st) {
  bool any=false;
  for (int i=0;i<n;i++) if (q[i]!=MPI_REQUEST_NULL) { any=true; if (reqReady(q[i])) { reqFinish(q[i],st); q[i]=0; *ix=i; *f=1; progress_(); return 0; } }
  *f = !any; *ix=MPI_UNDEFINED; yield_(); return 0;
}
int MPI_Waitany(int n,MPI_Request* q,int* ix,MPI_Status* st) { int f=0; while (!f) MPI_Testany(n,q,ix,&f,st); return 0; }
int MPI_Request_free(MPI_Request* q) { *q=MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request*) { failcase("MPI_Cancel unsupported"); return 0; }
int MPI_Isend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* q) { *q=post(b,n,t,d,tag,c,false); maybeYield(); return 0; }
int MPI_Irsend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* q) { return MPI_Isend(b,n,t,d,tag,c,q); }
int MPI_Issend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* q) { *q=post(b,n,t,d,tag,c,true); maybeYield(); return 0; }
int MPI_Send(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { MPI_Request q=post(b,n,t,d,tag,c, C->mode!=0 && rnd(4)==0); return MPI_Wait(&q,NULL); }
int MPI_Rsend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { return MPI_Send(b,n,t,d,tag,c); }
int MPI_Ssend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { MPI_Request q=post(b,n,t,d,tag,c,true); return MPI_Wait(&q,NULL); }
int MPI_Irecv(void* b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request* q) {
  local(c); *q=newReq(RQ_RECV); Req& r=reqs[*q]; r.buf=b; r.count=n; r.type=t; r.src=s; r.tag=tag; r.comm=c;
  if (s==MPI_PROC_NULL) { r.done=true; r.st.MPI_SOURCE=MPI_PROC_NULL; } maybeYield(); return 0; }
int MPI_Recv(void* b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status* st) {
  if (s!=MPI_ANY_SOURCE&&s!=MPI_PROC_NULL&&(s<0||s>=csize(c))) failcase("receive from an invalid rank");
  MPI_Request q; 
  local(c); q=newReq(RQ_RECV); Req& r=reqs[q]; r.buf=b; r.count=n; r.type=t; r.src=s; r.tag=tag; r.comm=c; if (s==MPI_PROC_NULL) r.done=true;
  return MPI_Wait(&q,st); }
int MPI_Sendrecv(const void* sb,int sn,MPI_Datatype st,int d,int stag,void* rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status* stt) {
  MPI_Request q; MPI_Isend(sb,sn,st,d,stag,c,&q); MPI_Recv(rb,rn,rt,s,rtag,c,stt); return MPI_Wait(&q,NULL); }
int MPI_Iprobe(int s,int tag,MPI_Comm c,int* f,MPI_Status* st) {
  if (s!=MPI_ANY_SOURCE&&(s<0||s>=csize(c))) failcase("probe of an invalid rank");
  Msg* m=findMsg(c,s,tag);
  if (!m) { *f=0; yield_(); return 0; }
  *f=1; if (st) { st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->count_=(int)m->data.size(); } return 0;
}
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status* st) { int f=0; while (!f) MPI_Iprobe(s,tag,c,&f,st); return 0; }
int MPI_Barrier(MPI_Comm c) { int me=local(c); Coll* x=enter("Barrier",c,NULL,0,0,0,0,0); arrive(x,me); waitAll(x); leave(x); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request* q) { int me=local(c); Coll* x=enter("Ibarrier",c,NULL,0,0,0,0,0); arrive(x,me); *q=newReq(RQ_COLL); reqs[*q].coll=x; maybeYield(); return 0; }
int MPI_Bcast(void* b,int n,MPI_Datatype t,int root,MPI_Comm c) {
  int me=local(c); size_t k=(size_t)n*tsize(t); Coll* x=enter("Bcast",c,b,k,root,0,t,n); arrive(x,me);
  if (me!=root) { while (!x->here[root]) yield_(); if (k) memcpy(b,x->in[root].data(),k); }
  maybeYield(); progress_(); leave(x); return 0; }
static int allred(const char* kind,const void* s,void* r,int n,int t,int op,int c,int root,int how) {
  int me=local(c); size_t k=(size_t)n*tsize(t);
  const void* in = s==MPI_IN_PLACE ? r : s;
  if (n<0) failcase("negative count");
  Coll* x=enter(kind,c,in,k,root,op,t,n); arrive(x,me);
  if (how==1 && me!=root) { maybeYield(); leave(x); return 0; }
  waitAll(x);
  if (how==0||how==1) { std::vector<char> acc=x->in[0]; for (int i=1;i<x->n;i++) reduceInto(acc,x->in[i],n,t,op); if (k) memcpy(r,acc.data(),k); }
  else if (how==2) { std::vector<char> acc=x->in[0]; for (int i=1;i<=me;i++) reduceInto(acc,x->in[i],n,t,op); if (k) memcpy(r,acc.data(),k); }
  else if (me>0) { std::vector<char> acc=x->in[0]; for (int i=1;i<me;i++) reduceInto(acc,x->in[i],n,t,op); if (k) memcpy(r,acc.data(),k); }
  leave(x); return 0;
}
int MPI_Reduce(const void* s,void* r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c) { return allred("Reduce",s,r,n,t,op,c,root,1); }
int MPI_Allreduce(const void* s,void* r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c) { return allred("Allreduce",s,r,n,t,op,c,0,0); }
int MPI_Scan(const void* s,void* r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c) { return allred("Scan",s,r,n,t,op,c,0,2); }
int MPI_Exscan(const void* s,void* r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c) { return allred("Exscan",s,r,n,t,op,c,0,3); }
int MPI_Iallreduce(const void* s,void* r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c,MPI_Request* q) {
  int me=local(c); Coll* x=enter("Iallreduce",c,s==MPI_IN_PLACE?r:s,(size_t)n*tsize(t),0,op,t,n); arrive(x,me);
  *q=newReq(RQ_COLL); reqs[*q].coll=x; reqs[*q].rbuf=r; maybeYield(); return 0; }
static int gath(const char* kind,const void* s,int sn,int st,void* r,int rn,const int* rc,const int* rd,int rt,int root,int c,bool all) {
  int me=local(c),n=csize(c); 
  const void* in=s; size_t k=(size_t)sn*tsize(st);
  if (s==MPI_IN_PLACE) { size_t off = rc ? (size_t)rd[me]*tsize(rt) : (size_t)me*rn*tsize(rt); k = (size_t)(rc?rc[me]:rn)*tsize(rt); in=(char*)r+off; }
  Coll* x=enter(kind,c,in,k,root,0,0,0); arrive(x,me);
  if (!all && me!=root) { maybeYield(); leave(x); return 0; }
  waitAll(x);
  for (int i=0;i<n;i++) { size_t off = rc ? (size_t)rd[i]*tsize(rt) : (size_t)i*rn*tsize(rt); size_t cap=(size_t)(rc?rc[i]:rn)*tsize(rt);
    if (x->in[i].size()!=cap) failcase(std::string("sizes differ in ")+kind);
    if (cap) memmove((char*)r+off,x->in[i].data(),cap); }
  leave(x); return 0;
}
int MPI_Gather(const void* s,int sn,MPI_Datatype st,void* r,int rn,MPI_Datatype rt,int root,MPI_Comm c) { return gath("Gather",s,sn,st,r,rn,NULL,NULL,rt,root,c,false); }
int MPI_Gatherv(const void* s,int sn,MPI_Datatype st,void* r,const int* rc,const int* rd,MPI_Datatype rt,int root,MPI_Comm c) { return gath("Gatherv",s,sn,st,r,0,rc,rd,rt,root,c,false); }
int MPI_Allgather(const void* s,int sn,MPI_Datatype st,void* r,int rn,MPI_Datatype rt,MPI_Comm c) { return gath("Allgather",s,sn,st,r,rn,NULL,NULL,rt,0,c,true); }
int MPI_Allgatherv(const void* s,int sn,MPI_Datatype st,void* r,const int* rc,const int* rd,MPI_Datatype rt,MPI_Comm c) { return gath("Allgatherv",s,sn,st,r,0,rc,rd,rt,0,c,true); }
static int scat(const char* kind,const void* s,int sn,const int* sc,const int* sd,int st,void* r,int rn,int rt,int root,int c) {
  int me=local(c),n=csize(c); size_t bytes=0;
  if (me==root) for (int i=0;i<n;i++) bytes=std::max(bytes,(size_t)((sc?sd[i]+sc[i]:(i+1)*sn))*tsize(st));
  Coll* x=enter(kind,c,me==root?s:NULL,bytes,root,0,0,0);
  if (me==root) for (int i=0;i<n;i++) { x->counts[root].push_back((sc?sc[i]:sn)*(int)tsize(st)); x->displs[root].push_back((sc?sd[i]:i*sn)*(int)tsize(st)); }
  arrive(x,me); while (!x->here[root]) yield_();
  if (r!=MPI_IN_PLACE) { if ((size_t)x->counts[root][me]!=(size_t)rn*tsize(rt)) failcase(std::string("sizes differ in ")+kind);
    if (x->counts[root][me]) memcpy(r,x->in[root].data()+x->displs[root][me],x->counts[root][me]); }
  progress_(); leave(x); return 0; }
int MPI_Scatter(const void* s,int sn,MPI_Datatype st,void* r,int rn,MPI_Datatype rt,int root,MPI_Comm c) { return scat("Scatter",s,sn,NULL,NULL,st,r,rn,rt,root,c); }
int MPI_Scatterv(const void* s,const int* sc,const int* sd,MPI_Datatype st,void* r,int rn,MPI_Datatype rt,int root,MPI_Comm c) { return scat("Scatterv",s,0,sc,sd,st,r,rn,rt,root,c); }
static int a2a(const char* kind,const void* s,int sn,const int* sc,const int* sd,int st,void* r,int rn,const int* rc,const int* rd,int rt,int c) {
  int me=local(c),n=csize(c); size_t bytes=0; if (s==MPI_IN_PLACE) failcase("in-place alltoall unsupported");
  for (int i=0;i<n;i++) bytes=std::max(bytes,(size_t)(sc?sd[i]+sc[i]:(i+1)*sn)*tsize(st));
  Coll* x=enter(kind,c,s,bytes,0,0,0,0);
  for (int i=0;i<n;i++) { x->counts[me].push_back((sc?sc[i]:sn)*(int)tsize(st)); x->displs[me].push_back((sc?sd[i]:i*sn)*(int)tsize(st)); }
  arrive(x,me); waitAll(x);
  for (int i=0;i<n;i++) { size_t want=(size_t)(rc?rc[i]:rn)*tsize(rt), off=(size_t)(rc?rd[i]:i*rn)*tsize(rt);
    if ((size_t)x->counts[i][me]!=want) failcase(std::string("sizes differ in ")+kind);
    if (want) memcpy((char*)r+off,x->in[i].data()+x->displs[i][me],want); }
  leave(x); return 0; }
int MPI_Alltoall(const void* s,int sn,MPI_Datatype st,void* r,int rn,MPI_Datatype rt,MPI_Comm c) { return a2a("Alltoall",s,sn,NULL,NULL,st,r,rn,NULL,NULL,rt,c); }
int MPI_Alltoallv(const void* s,const int* sc,const int* sd,MPI_Datatype st,void* r,const int* rc,const int* rd,MPI_Datatype rt,MPI_Comm c) { return a2a("Alltoallv",s,0,sc,sd,st,r,0,rc,rd,rt,c); }

// ================================================================ services for rank code
static std::map<int,std::pair<int,std::vector<std::string> > > pending;
int vh_rank(void) { return cur; }
int vh_size(void) { return N; }
void vh_yield(void) { yield_(); }
void vh_progress(void) { progress_(); }
unsigned vh_rand(void) { return rnd(); }
void vh_sched(int opidx, int mode, unsigned seed) {
  static int last = -1;
  if (last==opidx) return;
  last = opidx; C->mode = mode; rngs = seed*0x9E3779B97F4A7C15ULL+1;
  for (int i=0;i<N;i++) ranks[i].weight = 1+(mode==2 ? (rnd(3)==0 ? 0 : (rnd(3)==0 ? 199 : 19)) : 0);
}
const char* vh_dir(void) { return caseDir.c_str(); }
void vh_fail(const char* w) { failcase(w); }
void vh_stop(void) { ranks[cur].stopped=true; int r=pick(); if (r<0) finishAll(); else switchTo(r); abort(); }
void vh_opbegin(int k) { sh->op[cur]=k; progress_(); }
const char* vh_script(int k) { if (k>=(int)C->ops.size()) return NULL; return C->ops[k].args[cur].c_str(); }
const char* vh_opkind(int k) { return C->ops[k].kind.c_str(); }
void vh_event(const char* j) { writeAll(std::string("{\"case\":")+jstr(C->id)+","+(j+1)+"\n"); }
void vh_report(int k,const char* j) {
  auto& p=pending[k]; if (p.second.empty()) p.second.resize(N);
  p.second[cur]=j; p.first++; progress_();
  if (p.first==N) {
    std::ostringstream o; o<<"{\"case\":"<<jstr(C->id)<<",\"op\":"<<k<<",\"ev\":"<<jstr(C->ops[k].kind)<<",\"out\":[";
    for (int i=0;i<N;i++) o<<(i?",":"")<<p.second[i];
    guard::check();
    o<<"]}\n"; writeAll(o.str()); pending.erase(k);
  }
}
static long ticks=0;
long vh_tick(void) { return ++ticks; }
int vh_leftover(void) { int k=0; for (auto& q: queues) k+=q.second.size(); return k; }
int vh_leftover_self(void) { int k=0; for (auto& q: queues) { for (auto m: q.second) if (m->comm>2) k++; } return k; }
} // extern C

static void runCase(Case& c) {
  C=&c; N=c.n; rngs=c.seed*2654435761u+12345; step=0; idle=0; cur=-1;
  comms.resize(3); for (int i=0;i<N;i++) comms[1].members.push_back(i); comms[1].seq.assign(N,0); comms[1].freed=0;
  reqs.resize(1);
  ranks.resize(N);
  const size_t SS=4<<20;
  for (int i=0;i<N;i++) {
    char* st=(char*)mmap(NULL,SS,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    mprotect(st,4096,PROT_NONE);
    getcontext(&ranks[i].ctx); ranks[i].ctx.uc_stack.ss_sp=st; ranks[i].ctx.uc_stack.ss_size=SS; ranks[i].ctx.uc_link=NULL;
    makecontext(&ranks[i].ctx,(void(*)())trampoline,1,i);
    ranks[i].done=ranks[i].stopped=false; ranks[i].weight=20;
  }
  int r=pick();
  switchTo(r);
}
static char altstack[65536];
static void onsig(int s) { 
  char b[64]; int n=snprintf(b,sizeof b,"signal %d in rank %d",s,cur);
  if (!sh->why[0]) memcpy(sh->why,b,n+1);
  signal(s,SIG_DFL); raise(s); }

int main(int argc,char** argv) {
  // engine LIBDIR CASES OUT SCRATCH
  if (argc<5) { fprintf(stderr,"usage\n"); return 2; }
  std::string libdir=argv[1];
  std::vector<Case> cases; int maxn=0;
  { std::ifstream f(argv[2]); std::string line; Case* c=NULL;
    while (std::getline(f,line)) {
      if (line.compare(0,5,"CASE ")==0) { std::istringstream s(line.substr(5)); cases.push_back(Case()); c=&cases.back(); s>>c->id>>c->n>>c->seed>>c->mode; maxn=std::max(maxn,c->n); }
      else if (line.compare(0,3,"OP ")==0) { c->ops.push_back(OpScript()); c->ops.back().kind=line.substr(3); }
      else if (line.compare(0,2,"R ")==0) c->ops.back().args.push_back(line.substr(2));
      else if (line=="R") c->ops.back().args.push_back("");
    } }
  outfd=open(argv[3],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
  if (outfd<0) { perror("out"); return 2; }
  for (int i=0;i<maxn;i++) {
    std::string p=libdir+"/r"+std::to_string(i)+".so";
    void* h=dlopen(p.c_str(),RTLD_LAZY|RTLD_LOCAL);
    if (!h) { fprintf(stderr,"dlopen: %s\n",dlerror()); return 2; }
    mains[i]=(vh_main_t)dlsym(h,"vh_rank_main");
    if (!mains[i]) { fprintf(stderr,"no vh_rank_main\n"); return 2; }
  }
  sh=(Shared*)mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  std::string scratch=argv[4];
  mkdir(scratch.c_str(),0755);
  int hangs=0; // a tree that hangs often is not explored to the end
  for (size_t k=0;k<cases.size() && hangs<24;k++) {
    Case& c=cases[k];
    memset(sh,0,sizeof *sh); for (int i=0;i<MAXN;i++) sh->op[i]=-1;
    caseDir=scratch+"/c"; 
    std::string rm="/bin/rm -rf "+caseDir;
    struct stat sb; if (stat(caseDir.c_str(),&sb)==0) { if (system(rm.c_str())) {} }
    mkdir(caseDir.c_str(),0755);
    std::string so=scratch+"/stdout", se=scratch+"/stderr";
    writeAll("{\"case\":"+jstr(c.id)+",\"ev\":\"case\",\"n\":"+std::to_string(c.n)+"}\n");
    pid_t p=fork();
    if (p==0) {
      setpgid(0,0);
      int a=open(so.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644), b=open(se.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
      dup2(a,1); dup2(b,2); close(a); close(b); close(0); open("/dev/null",O_RDONLY);
      if (chdir(caseDir.c_str())) _exit(95);
      struct rlimit rl; rl.rlim_cur=hangs<4?8:2; rl.rlim_max=rl.rlim_cur+4; setrlimit(RLIMIT_CPU,&rl);
      rl.rlim_cur=rl.rlim_max=(rlim_t)3<<30; setrlimit(RLIMIT_AS,&rl);
      rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
      rl.rlim_cur=rl.rlim_max=(rlim_t)256<<20; setrlimit(RLIMIT_FSIZE,&rl);
      stack_t ss; ss.ss_sp=altstack; ss.ss_size=sizeof altstack; ss.ss_flags=0; sigaltstack(&ss,NULL);
      struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK;
      sigaction(SIGSEGV,&sa,NULL); sigaction(SIGBUS,&sa,NULL); sigaction(SIGABRT,&sa,NULL); sigaction(SIGFPE,&sa,NULL); sigaction(SIGILL,&sa,NULL);
      runCase(c);
      fflush(NULL);
      _exit(0);
    }
    int st=0; waitpid(p,&st,0);
    bool ok = WIFEXITED(st)&&WEXITSTATUS(st)==0;
    if (!ok) {
      std::string why=sh->why; bool cpu=false;
      if (WIFSIGNALED(st)) { if (WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL) { cpu=true; why="hang: processor time exhausted"; } else if (why.empty()) why="signal "+std::to_string(WTERMSIG(st)); }
      else if (why.empty()) why="exit "+std::to_string(WEXITSTATUS(st));
      if (cpu) hangs++;
      int op=-1; for (int i=0;i<c.n;i++) op=std::max(op,sh->op[i]);
      int minop=1<<30; for (int i=0;i<c.n;i++) minop=std::min(minop,sh->op[i]);
      std::string msg; { std::ifstream f(se.c_str()); std::stringstream b; b<<f.rdbuf(); msg=b.str(); if (msg.size()>600) msg=msg.substr(msg.size()-600); }
      std::ostringstream o; o<<"{\"case\":"<<jstr(c.id)<<",\"op\":"<<minop<<",\"ev\":\"crash\",\"opmax\":"<<op<<",\"why\":"<<jstr(why)<<",\"msg\":"<<jstr(msg)<<"}\n";
      writeAll(o.str());
    } else writeAll("{\"case\":"+jstr(c.id)+",\"ev\":\"endcase\"}\n");
  }
  return 0;
}
