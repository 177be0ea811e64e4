// The code every rank runs: interprets the operations of a case against the real library through
// its public interface and reports what it observes.
#include "vh.h"
#include <mpi.h>
#include <ngraph.h>
#include <agiMigration.h>
#include <agiMigrationTimers.h>
#include <PCU.h>
#include <pcu_io.h>
#include <engpar.h>
#include <engpar_support.h>
#include <engpar_metrics.h>
#include <binGraph.h>
#include <cengpar.h>
#include "engpar_queue.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

// the same interface reached through Fortran (harness/ftnshim.f90); c: 1 the C interface, 2 the Fortran one
extern "C" {
extern decltype(cengpar_initialize) ftn_initialize;
extern decltype(cengpar_finalize) ftn_finalize;
extern decltype(cengpar_setftncommunicator) ftn_setftncommunicator;
extern decltype(cengpar_createEmptyGraph) ftn_createEmptyGraph;
extern decltype(cengpar_createLocalSplitInput) ftn_createLocalSplitInput;
extern decltype(cengpar_createGlobalSplitInput) ftn_createGlobalSplitInput;
extern decltype(cengpar_createDiffusiveInput) ftn_createDiffusiveInput;
extern decltype(cengpar_setCutGrowthFactor) ftn_setCutGrowthFactor;
extern decltype(cengpar_addPriority) ftn_addPriority;
extern decltype(cengpar_balanceGhosts) ftn_balanceGhosts;
extern decltype(cengpar_balance) ftn_balance;
extern decltype(cengpar_loadFromFile) ftn_loadFromFile;
extern decltype(cengpar_saveToFile) ftn_saveToFile;
extern decltype(cengpar_evaluatePartition) ftn_evaluatePartition;
extern decltype(cengpar_split) ftn_split;
extern decltype(cengpar_constructVerts) ftn_constructVerts;
extern decltype(cengpar_constructEdges) ftn_constructEdges;
extern decltype(cengpar_constructGhosts) ftn_constructGhosts;
extern decltype(cengpar_checkValidity) ftn_checkValidity;
extern decltype(cengpar_destroyGraph) ftn_destroyGraph;
extern decltype(cengpar_getPartition) ftn_getPartition;
}
#define VIA(c,name) ((c)==2?ftn_##name:cengpar_##name)

using namespace agi;
typedef std::string S;
typedef agi::gid_t GID;

namespace vh {
Ngraph* g = NULL;
bool origSet = false;
std::map<S,MPI_Comm> comms;
int opIndex = -1;

struct Tok {
  std::istringstream s; S all;
  explicit Tok(const S& t) : s(t), all(t) {}
  S str() { S x; if (!(s>>x)) { vh_fail("script: token missing"); } return x; }
  long num() { return strtol(str().c_str(),NULL,10); }
  long long big() { return strtoll(str().c_str(),NULL,10); }
  double dbl() { return strtod(str().c_str(),NULL); }
  bool more() { s>>std::ws; return !s.eof(); }
};
S num(long long x) { return std::to_string(x); }
S q(long long x) { return "\""+std::to_string(x)+"\""; }
// scaled by 1000; a value that is not a multiple of 1/1000 or too big shows as a sentinel
S fx(double w) {
  double x = w*1000;
  if (!(x==x) || x>2e9 || x<-2e9) return "-2000000001";
  double r = std::floor(x+0.5);
  if (std::fabs(r-x)>1e-4) return "-2000000002";
  return num((long long)r);
}
// as fx, but rounds what is not a multiple
S fr(double w) {
  double x = w*1000;
  if (!(x==x) || x>2e9 || x<-2e9) return "-2000000001";
  return num((long long)std::floor(x+0.5));
}
S esc(const S& s) { S o="\""; for (size_t i=0;i<s.size();i++) { unsigned char c=s[i]; if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>126) o+='?'; else o+=c; } return o+"\""; }
template <class C> S list(const C& c) { S o="["; bool f=true; for (typename C::const_iterator i=c.begin();i!=c.end();++i) { if (!f) o+=","; f=false; o+=*i; } return o+"]"; }
typedef std::vector<S> L;

GraphVertex* byGid(GID gid) {
  VertexIterator* it=g->begin(); GraphVertex* v;
  while ((v=g->iterate(it))) if (g->globalID(v)==gid) return v;
  return NULL;
}
GraphVertex* ghostByGid(GID gid) {
  GhostIterator* it=g->beginGhosts(); GraphVertex* v;
  while ((v=g->iterate(it))) if (g->globalID(v)==gid) return v;
  return NULL;
}
GraphEdge* edgeBy(etype t, GID id) { // hypergraph: by global id; directed graph: by local id
  EdgeIterator* it=g->begin(t); GraphEdge* e; GraphEdge* r=NULL;
  while ((e=g->iterate(it))) if (g->globalID(e)==id) { r=e; break; }
  g->destroy(it);
  return r;
}
const int BOUND = 100000; // no list of a small graph is longer: stops runaway iteration

S projection(bool full=true) {
  std::ostringstream o;
  int nt=g->numEdgeTypes(); bool hy=g->isHyper();
  int peers=PCU_Comm_Peers();
  o<<"{\"hy\":"<<(hy?1:0)<<",\"nt\":"<<nt<<",\"gv\":"<<q(g->numGlobalVtxs());
  L ge,gp,le,lp; for (int t=0;t<nt;t++) { ge.push_back(q(g->numGlobalEdges(t))); gp.push_back(q(g->numGlobalPins(t)));
    le.push_back(num(g->numLocalEdges(t))); lp.push_back(num(g->numLocalPins(t))); }
  o<<",\"ge\":"<<list(ge)<<",\"gp\":"<<list(gp)<<",\"le\":"<<list(le)<<",\"lp\":"<<list(lp);
  o<<",\"nl\":"<<g->numLocalVtxs()<<",\"ng\":"<<g->numGhostVtxs()<<",\"nv\":"<<g->numTotalVtxs()<<",\"hc\":"<<(g->hasCoords()?1:0);
  L V; VertexIterator* it=g->begin(); GraphVertex* v; GraphVertex* prev=NULL; int n=0;
  while ((v=g->iterate(it))) {
    if (++n>BOUND) vh_fail("vertex iteration does not end");
    std::ostringstream r; GID id=g->globalID(v);
    r<<"{\"g\":"<<q(id)<<",\"l\":"<<g->localID(v)<<",\"w\":"<<fx(g->weight(v))<<",\"o\":"<<g->owner(v)
     <<",\"oo\":"<<(origSet?(int)g->originalOwner(v):-1)<<",\"f\":"<<(g->findGID(id)==v && g->find(v)==v && g->isEqual(v,v) && !(prev && g->isEqual(v,prev))?1:0); prev=v;
    if (g->hasCoords()) { const coord_t& c=g->coord(v); r<<",\"c\":["<<fx(c[0])<<","<<fx(c[1])<<","<<fx(c[2])<<"]"; }
    else r<<",\"c\":[]";
    r<<"}"; V.push_back(r.str());
  }
  o<<",\"V\":"<<list(V);
  L H; GhostIterator* gi=g->beginGhosts(); n=0;
  while ((v=g->iterate(gi))) {
    if (++n>BOUND) vh_fail("ghost iteration does not end");
    GID id=g->globalID(v);
    std::ostringstream r; r<<"{\"g\":"<<q(id)<<",\"l\":"<<g->localID(v)<<",\"o\":"<<g->owner(v)<<",\"w\":"<<(peers>1?fx(g->weight(v)):S("-1"))<<",\"f\":"<<(g->findGID(id)==v?1:0)<<"}";
    H.push_back(r.str());
  }
  o<<",\"H\":"<<list(H);
  if (full) {
    L ET,AT;
    for (int t=0;t<nt;t++) {
      L E; EdgeIterator* ei=g->begin(t); GraphEdge* e; n=0;
      while ((e=g->iterate(ei))) {
        if (++n>BOUND) vh_fail("edge iteration does not end");
        std::ostringstream r; r<<"{\"g\":"<<q(g->globalID(e))<<",\"l\":"<<g->localID(e)<<",\"w\":"<<fx(g->weight(e))<<",\"d\":"<<g->degree(e);
        L P; PinIterator* pi=g->pins(e); GraphVertex* x; int k=0;
        while ((x=g->iterate(pi))) { if (++k>BOUND) vh_fail("pin iteration does not end"); P.push_back(q(g->globalID(x))); }
        g->destroy(pi);
        r<<",\"p\":"<<list(P);
        agi::Peers res; g->getResidence(e,res); L R,RO; for (agi::Peers::iterator i=res.begin();i!=res.end();++i) R.push_back(num(*i));
        for (int i=0;i<peers;i++) if (g->isResidentOn(e,i)) RO.push_back(num(i));
        r<<",\"r\":"<<list(R)<<",\"ro\":"<<list(RO)<<",\"cut\":"<<(g->isCut(e)?1:0);
        if (!hy) r<<",\"u\":"<<q(g->globalID(g->u(e)))<<",\"v\":"<<q(g->globalID(g->v(e)));
        r<<"}"; E.push_back(r.str());
      }
      g->destroy(ei);
      ET.push_back(list(E));
      L A; it=g->begin();
      while ((v=g->iterate(it))) {
        std::ostringstream r; r<<"{\"g\":"<<q(g->globalID(v))<<",\"d\":"<<g->degree(v,t);
        L EL,AL; EdgeIterator* ei2=g->edges(v,t); int k=0;
        while ((e=g->iterate(ei2))) { if (++k>BOUND) vh_fail("vertex edge iteration does not end"); EL.push_back(num(g->localID(e))); }
        g->destroy(ei2);
        GraphIterator* ai=g->adjacent(v,t); GraphVertex* x; k=0; L AE;
        while ((x=g->iterate(ai))) { if (++k>BOUND) vh_fail("adjacency iteration does not end"); AL.push_back(q(g->globalID(x))); AE.push_back(num(g->localID(g->edge(ai)))); }
        g->destroy(ai);
        r<<",\"e\":"<<list(EL)<<",\"n\":"<<list(AL)<<",\"ne\":"<<list(AE)<<"}"; A.push_back(r.str());
      }
      AT.push_back(list(A));
    }
    o<<",\"E\":"<<list(ET)<<",\"A\":"<<list(AT);
  }
  o<<"}";
  return o.str();
}

S readFile(const S& p, bool* ok=NULL) { std::ifstream f(p.c_str(),std::ios::binary); if (ok) *ok=(bool)f; std::stringstream b; b<<f.rdbuf(); return b.str(); }
S hashOf(const S& s) { unsigned long long h=1469598103934665603ULL; for (size_t i=0;i<s.size();i++) { h^=(unsigned char)s[i]; h*=1099511628211ULL; } char b[32]; snprintf(b,sizeof b,"%016llx-%zu",h,s.size()); return b; }

// ------------------------------------------------------------------ graph construction
void opGraph(Tok& t, int viaC) {
  S form=t.str(); bool hy=t.num()!=0;
  long nv=t.num(); std::vector<GID> vs; std::vector<wgt_t> ws; 
  for (long i=0;i<nv;i++) vs.push_back(t.big());
  bool hasW=t.num()!=0; if (hasW) for (long i=0;i<nv;i++) ws.push_back(t.dbl());
  long nt=t.num();
  bool again=g&&!form.empty()&&form[form.size()-1]=='+'; if (!form.empty()&&form[form.size()-1]=='+') form=form.substr(0,form.size()-1);   // built anew in the same object
  if (g&&!again) { destroyGraph(g); g=NULL; }
  if (!again) g = viaC ? (Ngraph*)VIA(viaC,createEmptyGraph)() : createEmptyGraph();
  origSet=false;
  std::vector<std::vector<GID> > eids(nt),pins(nt); std::vector<std::vector<lid_t> > degs(nt); std::vector<std::vector<wgt_t> > ew(nt);
  std::vector<int> hasE(nt);
  for (long k=0;k<nt;k++) {
    long ne=t.num(); hasE[k]=t.num();
    for (long i=0;i<ne;i++) { eids[k].push_back(t.big()); double w=t.dbl(); if (hasE[k]) ew[k].push_back(w); long d=t.num(); degs[k].push_back(d); for (long j=0;j<d;j++) pins[k].push_back(t.big()); }
  }
  std::unordered_map<GID,part_t> own; std::vector<GID> gv; std::vector<part_t> go;
  long ng=t.num(); for (long i=0;i<ng;i++) { GID a=t.big(); part_t o=t.num(); gv.push_back(a); go.push_back(o); own[a]=o; }
  GID dg=0; lid_t dl=0; wgt_t dw=0; part_t dp=0;
#define PTR(v,d) ((v).empty()?&(d):&(v)[0])
  if (form=="vec") {
    g->constructVerts(hy,vs,ws);
    for (long k=0;k<nt;k++) { etype r=g->constructEdges(eids[k],degs[k],pins[k],ew[k]); if (r!=k) vh_fail("constructEdges returned a wrong type"); }
    g->constructGhosts(own);
  } else if (form=="cg") {
    g->constructGraph(hy,vs,ws,eids[0],degs[0],pins[0],own);
  } else if (form=="arr") {
    g->constructVerts(hy,(lid_t)nv,PTR(vs,dg),hasW?PTR(ws,dw):(wgt_t*)NULL);
    for (long k=0;k<nt;k++) { etype r=g->constructEdges((GID)eids[k].size(),PTR(eids[k],dg),PTR(degs[k],dl),PTR(pins[k],dg),hasE[k]?PTR(ew[k],dw):(wgt_t*)NULL); if (r!=k) vh_fail("constructEdges returned a wrong type"); }
    g->constructGhosts((lid_t)ng,PTR(gv,dg),PTR(go,dp));
  } else if (form=="c") {
    VIA(viaC,constructVerts)(g,hy,PTR(vs,dg),PTR(ws,dw),(int)nv);
    for (long k=0;k<nt;k++) { etype r=VIA(viaC,constructEdges)(g,PTR(eids[k],dg),PTR(degs[k],dl),PTR(ew[k],dw),PTR(pins[k],dg),(int)eids[k].size(),(int)pins[k].size()); if (r!=k) vh_fail("cengpar_constructEdges returned a wrong type"); }
    VIA(viaC,constructGhosts)(g,PTR(gv,dg),PTR(go,dp),(int)ng);
  } else vh_fail("script: unknown construction form");
}

// ------------------------------------------------------------------ tags
struct TagRec { GraphTag* t; int kind; int etyp; bool ghost; };
std::map<long,TagRec> tags;
long tagSalt=0; // callbacks of shared tags depend on the vertex and on the process that evaluates them
int cbInt(Ngraph* h,GraphVertex* v) { return (int)(h->globalID(v)%1000003)*3+(int)tagSalt+PCU_Comm_Self()*7; }
double cbDbl(Ngraph* h,GraphVertex* v) { return (double)(h->globalID(v)%1000003)*0.5+(double)tagSalt+PCU_Comm_Self(); }
long cbLong(Ngraph* h,GraphVertex* v) { return (long)(h->globalID(v)%1000003)*7+tagSalt+11*PCU_Comm_Self(); }
int cbIntT(Ngraph* h,GraphVertex* v) { return h->getIntTag(tags[tagSalt].t,v); }
double cbDblT(Ngraph* h,GraphVertex* v) { return h->getDoubleTag(tags[tagSalt].t,v); }
long cbLongT(Ngraph* h,GraphVertex* v) { return h->getLongTag(tags[tagSalt].t,v); }

template <class E> S tagGet(TagRec& r, E* v) {
  if (r.kind==0) return q(g->getIntTag(r.t,v)); 
  if (r.kind==1) return "\""+fx(g->getDoubleTag(r.t,v))+"\"";
  return q(g->getLongTag(r.t,v));
}

// ------------------------------------------------------------------ observing the steps of balancing
std::vector<S> steps; bool watching=false; int stBase=0;
S planJson(Migration* p) {
  L a; for (Migration::iterator i=p->begin();i!=p->end();++i) a.push_back("["+q(g->globalID(*i))+","+num(p->get(*i))+"]");
  return list(a);
}
int diffusionStarts() { // how many priorities have been announced on standard output so far (seen by rank 0)
  fflush(stdout);
  S s=readFile(S(vh_dir())+"/../stdout"); int k=0; size_t p=0;
  while ((p=s.find("Starting diffusion",p))!=S::npos) { k++; p+=10; }
  return k;
}
MigrationTimers* timers=NULL;
bool watchW=false;
void noteWeights(WeightMigration* p) {
  if (!watchW || !g) return;
  L a; for (WeightMigration::iterator i=p->begin();i!=p->end();i++) a.push_back("["+q(g->globalID(i.u()))+","+q(g->globalID(i.v()))+","+fx(i.weight())+"]");
  steps.push_back("{\"plan\":"+list(a)+"}");
}
std::vector<S> partSteps; // moves of weight between the vertices of another graph while balancing: those of the part weight balancer
void noteParts(Ngraph* h, WeightMigration* p) {
  if (!watching) return;
  L a; for (WeightMigration::iterator i=p->begin();i!=p->end();i++) a.push_back("["+q(h->globalID(i.u()))+","+q(h->globalID(i.v()))+","+fx(i.weight())+"]");
  partSteps.push_back("{\"plan\":"+list(a)+",\"st\":"+num(diffusionStarts()-stBase+1)+"}");
}
void noteMigrate(Migration* p, bool before) {
  if (!watching || !g) return;
  if (before) { 
    L own; VertexIterator* it=g->begin(); GraphVertex* v; while ((v=g->iterate(it))) own.push_back(q(g->globalID(v)));
    steps.push_back("{\"plan\":"+planJson(p)+",\"st\":"+num(diffusionStarts()-stBase)+",\"own\":"+list(own));
  } else {
    L own; VertexIterator* it=g->begin(); GraphVertex* v; while ((v=g->iterate(it))) own.push_back(q(g->globalID(v)));
    steps.back()+=",\"after\":"+list(own)+"}";
  }
}

// ------------------------------------------------------------------ partitioner stand-ins
struct Stub { std::map<GID,int> answer; bool called; S input; } stub;

MPI_Comm commOf(const S& n) { if (n=="world") return MPI_COMM_WORLD; if (n=="self") return MPI_COMM_SELF; if (!comms.count(n)) vh_fail("script: unknown communicator"); return comms[n]; }

S capture(size_t from) { fflush(stdout); S s=readFile(S(vh_dir())+"/../stdout"); return from<=s.size()?s.substr(from):S(); }
size_t logPos=0;
size_t captureMark() { fflush(stdout); return readFile(S(vh_dir())+"/../stdout").size(); }
// what was printed since, as rank 0 sees it, while all processes wait
S spoken(size_t from) { PCU_Barrier(); S out = PCU_Comm_Self()==0 ? capture(from) : S(); PCU_Barrier();
  L lines; std::istringstream is(out); S ln; while (std::getline(is,ln)) lines.push_back(esc(ln)); return list(lines); }
} // namespace vh

// the wrapped migration (see the link flags); absent when the library has no such symbol
extern "C" void __real__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(Ngraph*,Migration*,MigrationTimers*) __attribute__((weak));
extern "C" void __wrap__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(Ngraph* h,Migration* p,MigrationTimers* m) {
  if (h==vh::g) vh::noteMigrate(p,true);
  __real__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(h,p,m);
  if (h==vh::g) vh::noteMigrate(NULL,false);
}

extern "C" void __real__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(Ngraph*,WeightMigration*,MigrationTimers*) __attribute__((weak));
extern "C" void __wrap__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(Ngraph* h,WeightMigration* p,MigrationTimers* m) {
  if (h==vh::g) vh::noteWeights(p); else vh::noteParts(h,p);
  __real__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(h,p,m);
}
#include "stubs.h"

namespace vh {
std::vector<double> byOrder(std::map<GID,double>& m, double dflt) {
  std::vector<double> r; VertexIterator* it=g->begin(); GraphVertex* v;
  while ((v=g->iterate(it))) { GID id=g->globalID(v); r.push_back(m.count(id)?m[id]:dflt); }
  return r;
}
// a hyperedge by its global id, a directed edge by its end points
S edgeName(GraphEdge* e) { return g->isHyper()?q(g->globalID(e)):"\""+num(g->globalID(g->u(e)))+">"+num(g->globalID(g->v(e)))+"\""; }
S adjacency(const S& kind, etype ty) {
  L A;
  if (kind=="vev") {
    VertexIterator* it=g->begin(); GraphVertex* v;
    while ((v=g->iterate(it))) {
      L n; VEVIterator* a=g->vev_begin(v,ty); int k=0;
      for (GraphVertex* x=g->iterate(a); a!=g->vev_end(v,ty); x=g->iterate(a)) { if (++k>BOUND) vh_fail("second adjacency iteration does not end"); n.push_back(q(g->globalID(x))); }
      A.push_back("{\"g\":"+q(g->globalID(v))+",\"n\":"+list(n)+"}");
    }
  } else {
    EdgeIterator* it=g->begin(ty); GraphEdge* e;
    while ((e=g->iterate(it))) {
      L n; EVEIterator* a=g->eve_begin(e); int k=0;
      for (GraphEdge* x=g->iterate(a); a!=g->eve_end(e); x=g->iterate(a)) { if (++k>BOUND) vh_fail("second adjacency iteration does not end");
        uintptr_t id=(uintptr_t)x-1; n.push_back("["+num(id%g->numEdgeTypes())+","+edgeName(x)+"]"); }
      A.push_back("{\"g\":"+edgeName(e)+",\"n\":"+list(n)+"}");
    }
    g->destroy(it);
  }
  return list(A);
}

S op(const S& kind, Tok& t) {
  if (kind=="init") { S how=t.str(); 
    if (how=="c") cengpar_initialize(); else if (how=="f") ftn_initialize(); else if (how=="pcu") PCU_Comm_Init(); else if (how=="both") { PCU_Comm_Init(); EnGPar_Initialize(); }
    else if (how=="quiet") EnGPar_Initialize(-1); else EnGPar_Initialize();
    return "{\"self\":"+num(PCU_Comm_Self())+",\"peers\":"+num(PCU_Comm_Peers())+"}"; }
  if (kind=="fini") { S how=t.str(); if (g) { destroyGraph(g); g=NULL; } if (how=="c") cengpar_finalize(); else if (how=="f") ftn_finalize(); else if (how=="pcu") PCU_Comm_Free(); else EnGPar_Finalize();
    return "{\"init\":"+num(PCU_Comm_Initialized()?1:0)+"}"; }
  if (kind=="sched") { int mode=t.num(); long seed=t.num(); PCU_Barrier(); vh_sched(opIndex,mode,(unsigned)seed); PCU_Barrier(); return "{}"; }
  if (kind=="log") { int on=t.num(); if (on) { EnGPar_Open_Log(); logPos=0; } else EnGPar_Close_Log(); return "{}"; }
  if (kind=="logread") { // what was written to the log since the last look: indentation and text of each line
    fflush(NULL); PCU_Barrier(); L lines;
    if (PCU_Comm_Self()==0) { bool ok; S b=readFile("log.txt",&ok); S d=b.size()>logPos?b.substr(logPos):S(); logPos=b.size(); std::istringstream is(d); S ln;
      while (std::getline(is,ln)) { size_t k=0; while (k<ln.size()&&ln[k]==' ') k++; S tx=ln.substr(k); L v; size_t at=tx.find(S(vh_dir())+"/"); if (at!=S::npos) tx.erase(at,S(vh_dir()).size()+1);
        size_t c=tx.find(" :"); if (k%2 && c!=S::npos) { std::istringstream w(tx.substr(c+2)); double x; while (w>>x) v.push_back(fx(x)); tx=tx.substr(0,c); }
        lines.push_back("{\"d\":"+num((long)k)+",\"s\":"+esc(tx)+",\"v\":"+list(v)+"}"); } }
    PCU_Barrier(); return "{\"open\":"+num(EnGPar_Is_Log_Open()?1:0)+",\"lines\":"+list(lines)+"}"; }
  if (kind=="graph") { opGraph(t,false); return projection(); }
  if (kind=="cgraph") { opGraph(t,t.num()); return projection(); }
  if (kind=="empty") { if (g) destroyGraph(g); g=createEmptyGraph(); origSet=false; return "{}"; }
  if (kind=="proj") return projection();
  if (kind=="valid") { int c=t.num(); EnGPar_Start_Test(); bool ok=true; if (c) VIA(c,checkValidity)(g); else ok=checkValidity(g); return "{\"ok\":"+num(ok?1:0)+",\"err\":"+num(EnGPar_Hit_Error()?1:0)+"}"; }
  if (kind=="corrupt") { // one number of the graph made wrong, the check asked, and the number put back
    S what=t.str(); int ty=t.num(), pick=t.num(); PNgraph* pg=g->publicize(); bool hit=false;
    part_t* o=NULL; part_t was=0; lid_t* pn=NULL; lid_t pw=0;
    if (what=="verts") { pg->num_global_verts+=1; hit=true; }
    else if (what=="edges") { pg->num_global_edges[ty]+=1; hit=true; }
    else if (what=="pins") { pg->num_global_pins[ty]+=1; hit=true; }
    else if (what=="lpins") { pg->num_local_pins[ty]+=1; hit=true; }
    else if ((what=="self"||what=="far") && pg->num_ghost_verts>0) { o=&pg->owners[pick%pg->num_ghost_verts]; was=*o; *o = what=="self" ? PCU_Comm_Self() : PCU_Comm_Peers()+pick%3; hit=true; }
    else if (what=="pin") { // a vertex that names an edge which does not name it
      lid_t at=-1, by=-1; if (ty<pg->num_types && pg->pin_list[ty] && pg->num_local_edges[ty]>0) { 
        lid_t e=pick%pg->num_local_edges[ty], a=pg->pin_degree_list[ty][e], b=pg->pin_degree_list[ty][e+1]; std::set<lid_t> in(pg->pin_list[ty]+a,pg->pin_list[ty]+b);
        for (lid_t i=a;i<b;i++) if (pg->pin_list[ty][i]<pg->num_local_verts) { at=i; break; }
        for (lid_t v=0;v<pg->num_local_verts+pg->num_ghost_verts&&by<0;v++) if (!in.count(v)) by=v; }
      if (PCU_Min_Int(at>=0&&by>=0)) { pn=&pg->pin_list[ty][at]; pw=*pn; *pn=by; hit=true; } }
    EnGPar_Start_Test(); bool ok=checkValidity(g); bool err=EnGPar_Hit_Error();
    if (what=="verts") pg->num_global_verts-=1; else if (what=="edges") pg->num_global_edges[ty]-=1; else if (what=="pins") pg->num_global_pins[ty]-=1; else if (what=="lpins") pg->num_local_pins[ty]-=1;
    if (o) *o=was; if (pn) *pn=pw;
    PCU_Barrier(); EnGPar_Start_Test(); bool again=checkValidity(g); bool err2=EnGPar_Hit_Error();
    return "{\"hit\":"+num(hit?1:0)+",\"ok\":"+num(ok?1:0)+",\"err\":"+num(err?1:0)+",\"again\":"+num(again?1:0)+",\"err2\":"+num(err2?1:0)+"}"; }
  if (kind=="msg") { // a message of the given kind: what the standard output shows of it, and the test status after it
    S how=t.str(); int lv=t.num(), verb=t.num(); S tx=t.str(); bool me=PCU_Comm_Self()==0; EnGPar_Start_Test(); PCU_Barrier(); size_t mk=captureMark(); PCU_Barrier(); int old=-9; for (int v=-9;v<20;v++) if (EnGPar_Check_Verbosity(v)) old=v;
    EnGPar_Set_Verbosity(verb); if (me) { if (how=="v") EnGPar_Status_Message(lv,"%s %d\n",tx.c_str(),lv); else if (how=="s") EnGPar_Status_Message("%s %d\n",tx.c_str(),lv); else if (how=="w") EnGPar_Warning_Message("%s %d\n",tx.c_str(),lv); else EnGPar_Error_Message("%s %d\n",tx.c_str(),lv); }
    bool err=EnGPar_Hit_Error(); EnGPar_Start_Test(); bool err2=EnGPar_Hit_Error(); int chk=EnGPar_Check_Verbosity(lv)?1:0; EnGPar_Set_Verbosity(old); fflush(stdout);
    return "{\"said\":"+spoken(mk)+",\"err\":"+num(err?1:0)+",\"again\":"+num(err2?1:0)+",\"chk\":"+num(chk)+"}"; }
  if (kind=="wplan") { // a plan for moving weight, asked after every change
    WeightMigration* p=new WeightMigration(g); long k=t.num(); L r;
    for (long i=0;i<k;i++) { S o=t.str(); 
      if (o=="c") { p->clear(); r.push_back("0"); } else if (o=="s") r.push_back(num((long)p->size()));
      else if (o=="l") { L a; int n=0; for (WeightMigration::iterator j=p->begin();j!=p->end();j++) { if (++n>BOUND) vh_fail("weight plan iteration does not end"); a.push_back("["+q(g->globalID(j.u()))+","+q(g->globalID(j.v()))+","+fx(j.weight())+"]"); } r.push_back(list(a)); }
      else if (o=="h") { GraphVertex* u=byGid(t.big()); r.push_back(num(p->has(u)?1:0)); }
      else { GraphVertex* u=byGid(t.big()); GraphVertex* v=ghostByGid(t.big()); if (!u||!v) vh_fail("script: weight plan names an unknown vertex");
        if (o=="i") { p->insert(u,v,t.dbl()); r.push_back("0"); } else if (o=="H") r.push_back(num(p->has(u,v)?1:0)); else r.push_back(fx(p->get(u,v))); } }
    delete p; return "{\"r\":"+list(r)+"}"; }
  if (kind=="pcuio") { // writes the items through a PCU file, reads them back, and shows the bytes of the file
    S name=S(vh_dir())+"/"+t.str()+"_"+num(PCU_Comm_Self()); long k=t.num(); Tok again(t.all); again.str(); again.num(); L got; struct pcu_file* f=pcu_fopen(name.c_str(),true,false);
    for (long i=0;i<k;i++) { S o=t.str(); long m=t.num();
      if (o=="u") { std::vector<unsigned> a; for (long j=0;j<m;j++) a.push_back((unsigned)t.num()); a.push_back(7); std::vector<unsigned> b(a); pcu_write_unsigneds(f,&a[0],m); if (a!=b) vh_fail("writing changed the data"); }
      else if (o=="d") { std::vector<double> a; for (long j=0;j<m;j++) a.push_back(t.dbl()); a.push_back(7); std::vector<double> b(a); pcu_write_doubles(f,&a[0],m); if (a!=b) vh_fail("writing changed the data"); }
      else { S a; for (long j=0;j<m;j++) a+=(char)t.num(); if (o=="s") pcu_write_string(f,a.c_str()); else pcu_write(f,a.data(),m); } }
    pcu_fclose(f); PCU_Barrier(); f=pcu_fopen(name.c_str(),false,false);
    for (long i=0;i<k;i++) { S o=again.str(); long m=again.num(); L v; for (long j=0;j<m;j++) again.str();
      if (o=="u") { std::vector<unsigned> a(m+1,9u); pcu_read_unsigneds(f,&a[0],m); for (long j=0;j<m;j++) v.push_back(num((long)a[j])); if (a[m]!=9) vh_fail("reading wrote past the end"); }
      else if (o=="d") { std::vector<double> a(m+1,9.5); pcu_read_doubles(f,&a[0],m); for (long j=0;j<m;j++) v.push_back(fx(a[j])); if (a[m]!=9.5) vh_fail("reading wrote past the end"); }
      else if (o=="s") { char* c=NULL; pcu_read_string(f,&c); for (char* x=c;*x;x++) v.push_back(num((long)(unsigned char)*x)); free(c); }
      else { std::vector<char> a(m+1,9); pcu_read(f,&a[0],m); for (long j=0;j<m;j++) v.push_back(num((long)(unsigned char)a[j])); if (a[m]!=9) vh_fail("reading wrote past the end"); }
      got.push_back(list(v)); }
    pcu_fclose(f); bool ok; S raw=readFile(name,&ok); L bytes; for (size_t i=0;i<raw.size();i++) bytes.push_back(num((long)(unsigned char)raw[i]));
    return "{\"got\":"+list(got)+",\"raw\":"+list(bytes)+"}"; }
  if (kind=="debug") { // the debug output of each process: opened (1), written to (text), looked at
    int open=t.num(); long k=t.num(); if (open) PCU_Debug_Open(); for (long i=0;i<k;i++) { S a=t.str(); PCU_Debug_Print("%s %ld\n",a.c_str(),i); }
    PCU_Barrier(); int wr; MPI_Comm_rank(MPI_COMM_WORLD,&wr); bool ok; S b=readFile("debug"+num(wr)+".txt",&ok); L lines; std::istringstream is(b); S ln; while (std::getline(is,ln)) lines.push_back(esc(ln));
    PCU_Barrier(); return "{\"there\":"+num(ok?1:0)+",\"lines\":"+list(lines)+"}"; }
  if (kind=="coords") { long k=t.num(); std::map<GID,int> at; std::vector<double> xs; 
    for (long i=0;i<k;i++) { GID a=t.big(); at[a]=(int)i; for (int j=0;j<3;j++) xs.push_back(t.dbl()); }
    coord_t* c=new coord_t[g->numLocalVtxs()+1]; VertexIterator* it=g->begin(); GraphVertex* v; int i=0;
    while ((v=g->iterate(it))) { GID id=g->globalID(v); for (int j=0;j<3;j++) c[i][j]= at.count(id)?xs[3*at[id]+j]:-1; i++; }
    g->setCoords(c); for (int k2=0;k2<i;k2++) for (int j=0;j<3;j++) c[k2][j]=-7; delete [] c; return projection(); }
  if (kind=="setw") { long k=t.num(); std::map<GID,double> m; for (long i=0;i<k;i++) { GID a=t.big(); m[a]=t.dbl(); }
    std::vector<double> w=byOrder(m,1); w.push_back(0); g->setWeights(&w[0]); for (size_t i=0;i<w.size();i++) w[i]=-9; return projection(); }
  if (kind=="setew") { etype ty=t.num(); double w=t.dbl(); g->setEdgeWeights(w,ty); return projection(); }
  if (kind=="rmedges") { etype ty=t.num(); g->removeEdges(ty); return projection(); }
  if (kind=="addedges") { etype want=t.num(); long ne=t.num(); std::vector<GID> e,p; std::vector<lid_t> d; std::vector<wgt_t> w; 
    for (long i=0;i<ne;i++) { e.push_back(t.big()); w.push_back(t.dbl()); long k=t.num(); d.push_back(k); for (long j=0;j<k;j++) p.push_back(t.big()); }
    (void)want; std::unordered_map<GID,part_t> own; long ng=t.num(); for (long i=0;i<ng;i++) { GID a=t.big(); own[a]=t.num(); }
    g->constructEdges(e,d,p,w); g->constructGhosts(own); return projection(); }
  if (kind=="setorig") { g->setOriginalOwners(); origSet=true; return projection(); }
  if (kind=="setorigv") { long k=t.num(); std::map<GID,double> m; for (long i=0;i<k;i++) { GID a=t.big(); m[a]=t.num(); }
    std::vector<double> d=byOrder(m,PCU_Comm_Self()); std::vector<part_t> o; for (size_t i=0;i<d.size();i++) o.push_back((part_t)d[i]); g->setOriginalOwners(o); origSet=true; return projection(); }
  if (kind=="resetpart") { g->resetPartition(); origSet=true; 
    WeightPartitionMap* m=g->getWeightPartition(); return "{\"p\":"+projection()+",\"left\":"+num((long)m->size())+"}"; }
  if (kind=="stats") { PCU_Barrier(); size_t m=captureMark(); PCU_Barrier(); g->printStats(); fflush(stdout); PCU_Barrier();
    S out = PCU_Comm_Self()==0 ? capture(m) : S(); PCU_Barrier(); L lines; std::istringstream is(out); S ln; while (std::getline(is,ln)) lines.push_back(esc(ln)); return "{\"lines\":"+list(lines)+"}"; }
  if (kind=="bigstats") { // a graph of its own with many edges: two vertices per process, so many edges of each type between them
    bool hy=t.num()!=0; int nt=t.num(); std::vector<long> c; for (int i=0;i<nt;i++) c.push_back(t.num()); GID me=PCU_Comm_Self();
    Ngraph* b=createEmptyGraph(); std::vector<agi::gid_t> vs; vs.push_back(2*me); vs.push_back(2*me+1); std::vector<agi::wgt_t> no; b->constructVerts(hy,vs,no);
    for (int k=0;k<nt;k++) { std::vector<agi::gid_t> ids, pins; std::vector<agi::lid_t> degs; for (long i=0;i<c[k];i++) { ids.push_back(me*10000000+i); degs.push_back(2); pins.push_back(vs[0]); pins.push_back(vs[1]); } b->constructEdges(ids,degs,pins,no); }
    std::unordered_map<agi::gid_t,agi::part_t> gh; b->constructGhosts(gh);
    PCU_Barrier(); size_t m=captureMark(); PCU_Barrier(); b->printStats(); fflush(stdout); PCU_Barrier();
    S out = PCU_Comm_Self()==0 ? capture(m) : S(); PCU_Barrier(); destroyGraph(b); L lines; std::istringstream is(out); S ln; while (std::getline(is,ln)) lines.push_back(esc(ln)); return "{\"lines\":"+list(lines)+"}"; }
  if (kind=="resetown") { g->resetOwnership(); origSet=true; return projection(); }
  if (kind=="timers") { S o=t.str();
    if (o=="new") { delete timers; timers=new MigrationTimers; return "{}"; }
    if (o=="add") { timers->addTimer(t.str()); return "{}"; }
    if (o=="upd") { S nm=t.str(); long k=t.num(); for (long i=0;i<k;i++) timers->update(nm,t.dbl()); return "{}"; }
    L a; while (t.more()) { S nm=t.str(); bool pc=t.num()!=0; auto us=[](double x) { return num((long long)std::llround(x*1e6)); };
      S x="{\"k\":\""+nm+"\",\"t\":"+us(timers->getTime(nm))+",\"n\":"+num(timers->getCount(nm))+",\"max\":"+us(timers->processMax(nm))+",\"avg\":"+us(timers->processAvg(nm));
      if (pc) x+=",\"cmax\":"+us(timers->perCallProcessMax(nm))+",\"cavg\":"+us(timers->perCallProcessAvg(nm)); else x+=",\"cmax\":-1,\"cavg\":-1";
      a.push_back(x+"}"); }
    return "{\"t\":"+list(a)+"}"; }
  if (kind=="mig") {
    if (!origSet) { g->setOriginalOwners(); origSet=true; }
    Migration* p=new Migration(g); long k=t.num(); L rets;
    for (long i=0;i<k;i++) { GID a=t.big(); int d=t.num(); 
      if (a==-1) { p->clear(); rets.push_back("2"); continue; }
      GraphVertex* v=byGid(a); if (!v) continue; rets.push_back(num(p->insert(std::make_pair(v,d))?1:0)); }
    S pj=planJson(p); int sz=p->size(); L has; VertexIterator* it=g->begin(); GraphVertex* v; while ((v=g->iterate(it))) if (p->has(v)) has.push_back("["+q(g->globalID(v))+","+num(p->get(v))+"]");
    bool timed=t.more()&&t.str()=="timed";
    if (timed) g->migrate(p,timers); else g->migrate(p);
    return "{\"p\":"+projection()+",\"plan\":"+pj+",\"size\":"+num(sz)+",\"has\":"+list(has)+",\"ret\":"+list(rets)+"}"; }
  if (kind=="repart") { long k=t.num(); std::map<GID,double> m; for (long i=0;i<k;i++) { GID a=t.big(); m[a]=t.num(); }
    std::vector<double> d=byOrder(m,PCU_Comm_Self()); std::vector<part_t> pa; for (size_t i=0;i<d.size();i++) pa.push_back((part_t)d[i]); pa.push_back(0);
    g->repartition(&pa[0]); origSet=true; return projection(); }
  if (kind=="getpart") { int c=t.num(); long k=c?t.num():0; L a;
    if (c) { if (k<0) { PartitionMap* m=g->getPartition(); k=m->size(); delete m; }
      std::vector<GID> vs(k+1,-5); std::vector<part_t> ps(k+1,-5); VIA(c,getPartition)(g,&vs[0],&ps[0],(int)k); for (long i=0;i<k;i++) a.push_back("["+q(vs[i])+","+num(ps[i])+"]"); }
    else { PartitionMap* m=g->getPartition(); for (PartitionMap::iterator i=m->begin();i!=m->end();++i) a.push_back("["+q(i->first)+","+num(i->second)+"]"); delete m; }
    return "{\"m\":"+list(a)+"}"; }
  if (kind=="save"||kind=="load") { int c=t.num(); S p=S(vh_dir())+"/"+t.str(); 
    if (kind=="save") { if (c) VIA(c,saveToFile)(g,p.c_str()); else g->saveToFile(p.c_str());
      bool ok; S b=readFile(p+"_"+num(PCU_Comm_Self())+".bgd",&ok); return "{\"ok\":"+num(ok?1:0)+",\"h\":"+esc(hashOf(b))+"}"; }
    int fresh=t.num(); if (fresh) { if (g) destroyGraph(g); g=createEmptyGraph(); }
    if (c) VIA(c,loadFromFile)(g,p.c_str()); else g->loadFromFile(p.c_str()); origSet=false; return projection(); }
  if (kind=="tags") { // rank-local sequence of tag operations
    L out; 
    while (t.more()) { S c=t.str();
      if (c=="new") { long id=t.num(); TagRec r; r.kind=t.num(); r.etyp=t.num(); r.ghost=false; r.t = r.kind==0?g->createIntTag(r.etyp):r.kind==1?g->createDoubleTag(r.etyp):g->createLongTag(r.etyp); tags[id]=r; }
      else if (c=="set") { long id=t.num(); GID a=t.big(); long val=t.num(); TagRec& r=tags[id];
        if (r.etyp==VTX_TYPE) { GraphVertex* v=byGid(a); if (!v) continue; if (r.kind==0) g->setIntTag(r.t,v,(int)val); else if (r.kind==1) g->setDoubleTag(r.t,v,val/1000.0); else g->setLongTag(r.t,v,val); }
        else { GraphEdge* e=edgeBy(r.etyp,a); if (!e) continue; if (r.kind==0) g->setIntTag(r.t,e,(int)val); else if (r.kind==1) g->setDoubleTag(r.t,e,val/1000.0); else g->setLongTag(r.t,e,val); } }
      else if (c=="get") { long id=t.num(); GID a=t.big(); TagRec& r=tags[id];
        if (r.etyp==VTX_TYPE) { GraphVertex* v=byGid(a); out.push_back(v?tagGet(r,v):S("\"none\"")); }
        else { GraphEdge* e=edgeBy(r.etyp,a); out.push_back(e?tagGet(r,e):S("\"none\"")); } }
      else if (c=="del") { long id=t.num(); g->destroyTag(tags[id].t); tags.erase(id); }
    }
    return "{\"gets\":"+list(out)+"}"; }
  if (kind=="gtag") { long id=t.num(); TagRec r; r.kind=t.num(); tagSalt=t.num(); r.etyp=VTX_TYPE; r.ghost=true;
    bool own=r.kind>=3; r.kind%=3; // kinds 3..5 share the value of an ordinary tag
    r.t = r.kind==0?g->createIntGhostTag(own?cbIntT:cbInt):r.kind==1?g->createDoubleGhostTag(own?cbDblT:cbDbl):g->createLongGhostTag(own?cbLongT:cbLong); tags[id]=r; return "{}"; }
  if (kind=="ghostget") { L ids; L out; while (t.more()) { long id=t.num(); L a; GhostIterator* it=g->beginGhosts(); GraphVertex* v;
      while ((v=g->iterate(it))) a.push_back("["+q(g->globalID(v))+","+tagGet(tags[id],v)+"]"); out.push_back("{\"id\":"+num(id)+",\"a\":"+list(a)+"}"); }
    return "{\"t\":"+list(out)+"}"; }
  if (kind=="vev"||kind=="eve") { etype ty=t.num(); bool comp=t.num()!=0; 
    if (kind=="vev") g->create_vev_adjacency(ty,comp); else g->create_eve_adjacency(ty,comp);
    return "{\"a\":"+adjacency(kind,ty)+"}"; }
  if (kind=="reada") { S k=t.str(); etype ty=t.num(); return "{\"a\":"+adjacency(k,ty)+"}"; }
  if (kind=="wmig") { WeightMigration* p=new WeightMigration(g); long k=t.num();
    for (long i=0;i<k;i++) { GID a=t.big(), b=t.big(); double w=t.dbl(); GraphVertex* u=byGid(a); GraphVertex* v=ghostByGid(b); if (!u||!v) vh_fail("script: weight plan names an unknown vertex"); p->insert(u,v,w); }
    L pl; for (WeightMigration::iterator i=p->begin();i!=p->end();i++) pl.push_back("["+q(g->globalID(i.u()))+","+q(g->globalID(i.v()))+","+fx(i.weight())+"]");
    g->migrate(p);
    WeightPartitionMap* m=g->getWeightPartition(); L mm;
    for (WeightPartitionMap::iterator i=m->begin();i!=m->end();++i) for (std::unordered_map<GID,wgt_t>::iterator j=i->second.begin();j!=i->second.end();++j) mm.push_back("["+q(i->first)+","+q(j->first)+","+fx(j->second)+"]");
    return "{\"p\":"+projection()+",\"m\":"+list(mm)+",\"plan\":"+list(pl)+"}"; }
  if (kind=="wbal") { double tol=t.dbl(), sf=t.dbl(); etype ty=t.num(); int it=t.num(); engpar::WeightInput* in=engpar::createWeightInput(g,tol,sf,ty); in->maxIterations=it;
    PCU_Barrier(); size_t mk=captureMark(); PCU_Barrier(); steps.clear(); watchW=true; engpar::balanceWeights(in,t.num()); watchW=false; S said=spoken(mk);
    WeightPartitionMap* m=g->getWeightPartition(); L mm;
    for (WeightPartitionMap::iterator i=m->begin();i!=m->end();++i) for (std::unordered_map<GID,wgt_t>::iterator j=i->second.begin();j!=i->second.end();++j) mm.push_back("["+q(i->first)+","+q(j->first)+","+fx(j->second)+"]");
    return "{\"p\":"+projection()+",\"m\":"+list(mm)+",\"steps\":"+list(steps)+",\"lines\":"+said+"}"; }
  if (kind=="balance") {
    int c=t.num(); double sf=t.dbl(); engpar::DiffusiveInput* in;
    if (c) in=(engpar::DiffusiveInput*)(engpar::Input*)VIA(c,createDiffusiveInput)(g,sf); else in=engpar::createDiffusiveInput(g,sf);
    long k=t.num(); for (long i=0;i<k;i++) { int ty=t.num(); double tol=t.dbl(); if (c) VIA(c,addPriority)((engpar::Input*)in,ty,tol); else if (tol<0) in->priorities.push_back(ty); else in->addPriority(ty,tol); }
    int verb=0;
    while (t.more()) { S o=t.str(); 
      if (o=="it") in->maxIterations=t.num(); else if (o=="itt") in->maxIterationsPerType=t.num(); else if (o=="sides") in->sides_edge_type=t.num();
      else if (o=="ghosts") { bool b=t.num()!=0; if (c) VIA(c,balanceGhosts)((engpar::Input*)in,b); else in->balanceGhosts(b); }
      else if (o=="dq") in->useDistanceQueue=t.num()!=0; else if (o=="push") in->bfsPush=t.num()!=0;
      else if (o=="mincon") in->minConnectivity=t.num(); else if (o=="pwb") in->runPartWeightBalancer=t.num()!=0;
      else if (o=="cut") { double f=t.dbl(); if (c) VIA(c,setCutGrowthFactor)((engpar::Input*)in,f); else in->limitEdgeCutGrowth=f; }
      else if (o=="verb") verb=t.num(); else vh_fail("script: unknown balancing option"); }
    steps.clear(); partSteps.clear(); PCU_Barrier(); stBase=diffusionStarts(); size_t mk=captureMark(); PCU_Barrier(); watching=true;
    if (c) VIA(c,balance)((engpar::Input*)in,verb); else engpar::balance(in,verb);
    watching=false; if (PCU_Comm_Peers()>1) origSet=true; S said=spoken(mk);
    return "{\"p\":"+projection()+",\"steps\":"+list(steps)+",\"part\":"+list(partSteps)+",\"lines\":"+said+"}"; }
  if (kind=="queue") { bool dist=t.num()!=0; bool push=t.num()!=0; engpar::DiffusiveInput* in=engpar::createDiffusiveInput(g,0.1); in->bfsPush=push;
    engpar::Queue* qq = dist?engpar::createDistanceQueue(in):engpar::createIterationQueue(g); qq->startIteration(); L a;
    for (engpar::Queue::iterator i=qq->begin();i!=qq->end();i++) { GraphEdge* e=qq->get(i); a.push_back("["+num(g->localID(e))+","+q(g->globalID(e))+","+num(g->isCut(e)?1:0)+"]"); }
    delete qq; delete in; return "{\"q\":"+list(a)+"}"; }
  if (kind=="eval") { int c=t.num(); PCU_Barrier(); size_t m=captureMark(); PCU_Barrier(); if (c) VIA(c,evaluatePartition)(g); else engpar::evaluatePartition(g,"evalname"); PCU_Barrier();
    S out = PCU_Comm_Self()==0 ? capture(m) : S(); PCU_Barrier(); L lines; std::istringstream is(out); S ln; while (std::getline(is,ln)) lines.push_back(esc(ln)); return "{\"lines\":"+list(lines)+"}"; }
  if (kind=="imb") { bool gh=t.num()!=0; L w,im; for (int ty=-1;ty<g->numEdgeTypes();ty++) { double x=engpar::getWeight(g,ty,gh); w.push_back(fx(x)); im.push_back(fr(engpar::EnGPar_Get_Imbalance(x))); }
    char buf[2000]; memset(buf,0,sizeof buf); engpar::getImbalances(g,buf,gh); return "{\"w\":"+list(w)+",\"imb\":"+list(im)+",\"txt\":"+esc(buf)+"}"; }
  if (kind=="vtk") { // writes the files, shows them with the names of directories left out
    S name=t.str(); long id=t.num(); etype ty=t.num(); S base=S(vh_dir())+"/", pre=base+name;
    if (id<0 && ty==NO_TYPE) writeVTK(g,pre.c_str()); else writeVTK(g,pre.c_str(),id<0?(GraphTag*)NULL:tags[id].t,ty);
    bool ok, pok=true; S f=readFile(pre+num(PCU_Comm_Self())+".vtu",&ok), pf; if (PCU_Comm_Self()==0) pf=readFile(pre+".pvtu",&pok);
    for (size_t i=0;(i=pf.find(base,i))!=S::npos;) pf.erase(i,base.size());
    return "{\"p\":"+projection()+",\"ok\":"+num(ok&&pok?1:0)+",\"f\":"+esc(f)+",\"pf\":"+esc(pf)+"}"; }
  if (kind=="binfile") { // writes the edge list (and optionally the partition file), rank 0 only
    S name=S(vh_dir())+"/"+t.str(); long ne=t.num(); std::vector<uint32_t> e; for (long i=0;i<2*ne;i++) e.push_back((uint32_t)t.big());
    FILE* f=fopen(name.c_str(),"wb"); if (!e.empty()) fwrite(&e[0],4,e.size(),f); fclose(f);
    long np=t.num(); if (np>=0) { FILE* h=fopen((name+".part").c_str(),"w"); for (long i=0;i<np;i++) fprintf(h,"%ld\n",t.num()); fclose(h); } return "{}"; }
  if (kind=="binload") { S n=t.str(); bool part=t.num()!=0; S a=S(vh_dir())+"/"+n, b=a+".part"; if (g) { destroyGraph(g); g=NULL; } 
    PCU_Barrier(); g=createBinGraph(const_cast<char*>(a.c_str()),part?const_cast<char*>(b.c_str()):NULL); origSet=false; return projection(); }
  // ---------------------------------------------------------------- messages and collectives
  if (kind=="order") { PCU_Comm_Order(t.num()!=0); return "{}"; }
  if (kind=="phase") {
    // sends: to id len [w]; receive mode: r = PCU_Comm_Receive, l = Listen+Unpacked, d = Read
    S mode=t.str(); long k=t.num(); if (opIndex%3==0) PCU_Comm_Start(PCU_GLOBAL_METHOD); else PCU_Comm_Begin(); L packed; bool write=mode=="d";
    for (long i=0;i<k;i++) { int to=t.num(); int id=t.num(); int len=t.num();
      if (write) { std::vector<unsigned char> b(len+4); memcpy(&b[0],&id,4); for (int j=0;j<len;j++) b[4+j]=(unsigned char)(id*31+j*7); PCU_Comm_Write(to,&b[0],b.size()); }
      else { PCU_COMM_PACK(to,id); PCU_COMM_PACK(to,len); std::vector<unsigned char> b(len+1); for (int j=0;j<len;j++) b[j]=(unsigned char)(id*31+j*7); PCU_Comm_Pack(to,&b[0],len); }
      if (vh_rand()%4==0) vh_yield(); }
    L pk, rv; std::map<int,size_t> rsz; { std::set<int> tos; Tok u(t.all); u.str(); long kk=u.num(); for (long i=0;i<kk;i++) { int to=u.num(); u.num(); u.num(); tos.insert(to); }
      for (std::set<int>::iterator i=tos.begin();i!=tos.end();++i) { size_t z=0; PCU_Comm_Packed(*i,&z); pk.push_back("["+num(*i)+","+num((long)z)+"]"); } }
#define GOT(from) { size_t z=0; PCU_Comm_Received(&z); if (!rsz.count(from)) { rsz[from]=z; rv.push_back("["+num(from)+","+num((long)z)+"]"); } else if (rsz[from]!=z) rv.push_back("["+num(from)+",-1]"); }
    PCU_Comm_Send(); L rec; int n=0;
    if (write) { int from; void* data; size_t size; while (PCU_Comm_Read(&from,&data,&size)) { if (++n>BOUND) vh_fail("receive loop does not end"); GOT(from); int id=-1; if (size>=4) memcpy(&id,data,4); bool ok=size>=4; for (size_t j=4;j<size;j++) ok=ok&&((unsigned char*)data)[j]==(unsigned char)(id*31+(j-4)*7); rec.push_back("["+num(from)+","+num(id)+","+num((long)size-4)+","+num(ok?1:0)+"]"); } }
    else { 
      bool any = mode=="r"?PCU_Comm_Receive():PCU_Comm_Listen();
      while (any) {
        if (++n>BOUND) vh_fail("receive loop does not end");
        do {
          int from=PCU_Comm_Sender(); GOT(from); int fr2; PCU_Comm_From(&fr2); int id=-1,len=-1; PCU_COMM_UNPACK(id); PCU_COMM_UNPACK(len); bool ok=fr2==from;
          if (len<0||len>1000000) vh_fail("received bytes that were not packed");
          std::vector<unsigned char> b(len+1); if (mode=="e") { void* x=PCU_Comm_Extract(len); if (len) memcpy(&b[0],x,len); } else PCU_Comm_Unpack(&b[0],len); for (int j=0;j<len;j++) ok=ok&&b[j]==(unsigned char)(id*31+j*7);
          rec.push_back("["+num(from)+","+num(id)+","+num(len)+","+num(ok?1:0)+"]");
          if (vh_rand()%4==0) vh_yield();
        } while ((mode=="l"||mode=="e") && !PCU_Comm_Unpacked());
        any = mode=="r"?PCU_Comm_Receive():PCU_Comm_Listen();
      } }
    return "{\"rec\":"+list(rec)+",\"pk\":"+list(pk)+",\"rv\":"+list(rv)+"}"; }
  if (kind=="coll") { S f=t.str(); long n=t.num(); std::vector<long long> x; for (long i=0;i<n;i++) x.push_back(t.big()); L r;
    std::vector<int> xi(x.begin(),x.end()); std::vector<long> xl(x.begin(),x.end()); std::vector<double> xd; for (long i=0;i<n;i++) xd.push_back(x[i]/1000.0); std::vector<size_t> xz(x.begin(),x.end());
    bool one=n==1 && f.size()>1 && f[0]=='1'; S h=one?f.substr(1):f;
#define INTS for (long i=0;i<n;i++) r.push_back(q(xi[i]))
#define LONGS for (long i=0;i<n;i++) r.push_back(q(xl[i]))
#define DBLS for (long i=0;i<n;i++) r.push_back(q((long long)std::floor(xd[i]*1000+0.5)))
#define SIZES for (long i=0;i<n;i++) r.push_back(q((long long)xz[i]))
    if (h=="addi") { if (one) xi[0]=PCU_Add_Int(xi[0]); else PCU_Add_Ints(&xi[0],n); INTS; }
    else if (h=="mini") { if (one) xi[0]=PCU_Min_Int(xi[0]); else PCU_Min_Ints(&xi[0],n); INTS; }
    else if (h=="maxi") { if (one) xi[0]=PCU_Max_Int(xi[0]); else PCU_Max_Ints(&xi[0],n); INTS; }
    else if (h=="exi") { if (one) xi[0]=PCU_Exscan_Int(xi[0]); else PCU_Exscan_Ints(&xi[0],n); INTS; }
    else if (h=="addl") { if (one) xl[0]=PCU_Add_Long(xl[0]); else PCU_Add_Longs(&xl[0],n); LONGS; }
    else if (h=="exl") { if (one) xl[0]=PCU_Exscan_Long(xl[0]); else PCU_Exscan_Longs(&xl[0],n); LONGS; }
    else if (h=="addd") { if (one) xd[0]=PCU_Add_Double(xd[0]); else PCU_Add_Doubles(&xd[0],n); DBLS; }
    else if (h=="mind") { if (one) xd[0]=PCU_Min_Double(xd[0]); else PCU_Min_Doubles(&xd[0],n); DBLS; }
    else if (h=="maxd") { if (one) xd[0]=PCU_Max_Double(xd[0]); else PCU_Max_Doubles(&xd[0],n); DBLS; }
    else if (h=="addz") { if (one) xz[0]=PCU_Add_SizeT(xz[0]); else PCU_Add_SizeTs(&xz[0],n); SIZES; }
    else if (h=="minz") { if (one) xz[0]=PCU_Min_SizeT(xz[0]); else PCU_Min_SizeTs(&xz[0],n); SIZES; }
    else if (h=="maxz") { if (one) xz[0]=PCU_Max_SizeT(xz[0]); else PCU_Max_SizeTs(&xz[0],n); SIZES; }
    else if (h=="or") r.push_back(q(PCU_Or((int)x[0])?1:0));
    else if (h=="and") r.push_back(q(PCU_And((int)x[0])?1:0));
    else vh_fail("script: unknown collective");
    return "{\"v\":"+list(r)+"}"; }
  if (kind=="barrier") { for (unsigned k=vh_rand()%20;k>0;k--) vh_yield(); long a=vh_tick(); PCU_Barrier(); long b=vh_tick(); return "{\"a\":"+num(a)+",\"b\":"+num(b)+"}"; }
  // ---------------------------------------------------------------- communicators
  if (kind=="commsplit") { S name=t.str(), base=t.str(); int color=t.num(), key=t.num(); MPI_Comm c; MPI_Comm_split(commOf(base),color<0?MPI_UNDEFINED:color,key,&c); comms[name]=c; int sz=0,rk=-1; if (c!=MPI_COMM_NULL) { MPI_Comm_size(c,&sz); MPI_Comm_rank(c,&rk); } return "{\"n\":"+num(sz)+",\"r\":"+num(rk)+"}"; }
  if (kind=="switch") { S name=t.str(); int how=t.num(); MPI_Comm c=commOf(name); if (how==0) PCU_Switch_Comm(c); else if (how==1) EnGPar_Switch_Comm(c); else VIA(how-1,setftncommunicator)(MPI_Comm_c2f(c)); 
    int r,n; PCU_Comm_Rank(&r); PCU_Comm_Size(&n); return "{\"self\":"+num(PCU_Comm_Self())+",\"peers\":"+num(PCU_Comm_Peers())+",\"rank\":"+num(r)+",\"size\":"+num(n)+"}"; }
  if (kind=="info") { int r,n; PCU_Comm_Rank(&r); PCU_Comm_Size(&n); int mr,mn; MPI_Comm_rank(PCU_Get_Comm(),&mr); MPI_Comm_size(PCU_Get_Comm(),&mn);
    return "{\"self\":"+num(PCU_Comm_Self())+",\"peers\":"+num(PCU_Comm_Peers())+",\"rank\":"+num(r)+",\"size\":"+num(n)+",\"pself\":"+num(PCU_Proc_Self())+",\"ppeers\":"+num(PCU_Proc_Peers())+",\"mrank\":"+num(mr)+",\"msize\":"+num(mn)+"}"; }
  if (kind=="appsend") { // the application's own messages, left pending
    S name=t.str(); long k=t.num(); for (long i=0;i<k;i++) { int to=t.num(), tag=t.num(), val=t.num(); int* b=new int(val); MPI_Request rq; MPI_Isend(b,1,MPI_INT,to,tag,commOf(name),&rq); } return "{}"; }
  if (kind=="apprecv") { S name=t.str(); long k=t.num(); L a; for (long i=0;i<k;i++) { int from=t.num(), tag=t.num(); int val=-1; MPI_Status st; MPI_Recv(&val,1,MPI_INT,from,tag,commOf(name),&st); a.push_back(num(val)); } return "{\"v\":"+list(a)+"}"; }
  if (kind=="split") {
    S api=t.str(), method=t.str(), small=t.str(), large=t.str(); bool orig=t.num()!=0; int factor=t.num(); double tol=t.dbl(); etype ty=t.num();
    long no=t.num(); std::vector<part_t> others; for (long i=0;i<no;i++) others.push_back(t.num()); others.push_back(-1);
    stub=Stub(); stub.called=false; long k=t.num(); for (long i=0;i<k;i++) { GID a=t.big(); stub.answer[a]=t.num(); }
    MPI_Comm sc=commOf(small), lc=commOf(large);
    if (!g) g=createEmptyGraph();
    engpar::Input* in; bool local=method=="LOCAL_PARMETIS";
    int c=api=="f"?2:1; if (api!="n") { in=(engpar::Input*)(local?VIA(c,createLocalSplitInput)(g,MPI_Comm_c2f(sc),MPI_Comm_c2f(lc),orig,factor,tol,&others[0],ty):VIA(c,createGlobalSplitInput)(g,MPI_Comm_c2f(sc),MPI_Comm_c2f(lc),orig,tol,ty));
      VIA(c,split)(in,method.c_str()); }
    else { in=local?engpar::createLocalSplitInput(g,sc,lc,orig,factor,tol,&others[0],ty):engpar::createGlobalSplitInput(g,sc,lc,orig,tol,ty);
      engpar::split(in,method=="ZOLTAN_PHG"?engpar::ZOLTAN_PHG:local?engpar::LOCAL_PARMETIS:engpar::GLOBAL_PARMETIS); }
    origSet=true;
    return "{\"p\":"+projection()+",\"called\":"+num(stub.called?1:0)+",\"in\":"+(stub.called?stub.input:S("{}"))+",\"self\":"+num(PCU_Comm_Self())+",\"peers\":"+num(PCU_Comm_Peers())+"}"; }
  if (kind=="destroy") { int c=t.more()?t.num():0; if (g) { if (c) VIA(c,destroyGraph)(g); else destroyGraph(g); g=NULL; } return "{}"; }
  if (kind=="end") { for (int i=0;i<20000 && vh_leftover()>0;i++) { vh_progress(); vh_yield(); } return "{\"left\":"+num(vh_leftover())+"}"; }
  vh_fail(("script: unknown operation "+kind).c_str());
  return "{}";
}
} // namespace vh

extern "C" void vh_rank_main(int rank, int size) {
  (void)rank; (void)size;
  MPI_Init(NULL,NULL);
  for (int k=0;;k++) {
    const char* s=vh_script(k); if (!s) break;
    vh_opbegin(k); vh::opIndex=k;
    S a(s);
    if (a=="-") { vh_report(k,"{\"skip\":1}"); continue; }
    vh::Tok t(a); S r;
    try { r=vh::op(vh_opkind(k),t); }
    catch (int x) { vh_fail(("the library threw "+std::to_string(x)).c_str()); }
    catch (std::exception& x) { vh_fail((S("the library threw ")+x.what()).c_str()); }
    catch (...) { vh_fail("the library threw"); }
    vh_report(k,r.c_str());
  }
}
