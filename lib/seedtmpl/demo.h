// Shared by the demonstrations: builds distributed graphs from a description that every rank knows.
#include <mpi.h>
#include <PCU.h>
#include <pcu_io.h>
#include <ngraph.h>
#include <agiMigration.h>
#include <engpar.h>
#include <engpar_support.h>
#include <engpar_metrics.h>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>
#include <engpar_split_input.h>
#include <engpar_queue.h>
#include <binGraph.h>
#include <cengpar.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
using namespace agi;
#define gid_t ::agi::gid_t
static int bad = 0;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "rank %d line %d: %s\n", PCU_Comm_Self(), __LINE__, #c); bad = 1; } } while (0)
struct V { long id; int own; double w; };
struct E { long id; std::vector<long> pins; double w; };
typedef std::vector<V> Vs;
typedef std::vector<E> Es;
typedef std::vector<Es> Ts;
static inline Ngraph* make(bool hg, const Vs& vs, const Ts& ts, bool coords = false) {
  int me = PCU_Comm_Self();
  std::map<long,int> own;
  std::vector<gid_t> ids; std::vector<wgt_t> ws;
  for (auto& v : vs) { own[v.id] = v.own; if (v.own == me) { ids.push_back(v.id); ws.push_back(v.w); } }
  Ngraph* g = createEmptyGraph();
  g->constructVerts(hg, ids, ws);
  std::unordered_map<gid_t,part_t> ghosts;
  for (auto& es : ts) {
    std::vector<gid_t> eid, pins; std::vector<lid_t> deg; std::vector<wgt_t> ew;
    for (auto& e : es) {
      bool mine = false;
      for (size_t i = 0; i < (hg ? e.pins.size() : 1); i++) mine = mine || own[e.pins[i]] == me;
      if (!mine) continue;
      eid.push_back(e.id); deg.push_back(e.pins.size()); ew.push_back(e.w);
      for (long p : e.pins) { pins.push_back(p); if (own[p] != me) ghosts[p] = own[p]; }
    }
    g->constructEdges(eid, deg, pins, ew);
  }
  g->constructGhosts(ghosts);
  if (coords) {
    coord_t* cs = new coord_t[ids.size()];
    for (size_t i = 0; i < ids.size(); i++) for (int d = 0; d < 3; d++) cs[i][d] = ids[i] * 0.1 + d;
    g->setCoords(cs);
    delete [] cs;
  }
  g->setOriginalOwners();
  return g;
}
// moves the vertices in to: global id -> part
static inline void move(Ngraph* g, std::map<long,int> to) {
  Migration* plan = new Migration(g);
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) if (to.count(g->globalID(v))) plan->insert(std::make_pair(v, to[g->globalID(v)]));
  g->migrate(plan);
}
static inline std::map<long,GraphVertex*> locals(Ngraph* g) {
  std::map<long,GraphVertex*> r; VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) r[g->globalID(v)] = v;
  return r;
}
static inline std::map<long,GraphVertex*> ghosts(Ngraph* g) {
  std::map<long,GraphVertex*> r; GhostIterator* it = g->beginGhosts(); GraphVertex* v;
  while ((v = g->iterate(it))) r[g->globalID(v)] = v;
  return r;
}
// global id -> sorted pins, for hypergraphs
static inline std::map<long,GraphEdge*> edgesOf(Ngraph* g, etype t) {
  std::map<long,GraphEdge*> r; EdgeIterator* it = g->begin(t); GraphEdge* e;
  while ((e = g->iterate(it))) r[g->globalID(e)] = e;
  g->destroy(it);
  return r;
}
static inline std::vector<long> pinsOf(Ngraph* g, GraphEdge* e) {
  std::vector<long> r; PinIterator* it = g->pins(e); GraphVertex* v;
  for (lid_t i = 0, d = g->degree(e); i < d && (v = g->iterate(it)); i++) r.push_back(g->globalID(v));
  g->destroy(it);
  return r;
}
void demo(int argc, char** argv);
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  EnGPar_Initialize();
  demo(argc, argv);
  int any = 0;
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  EnGPar_Finalize();
  MPI_Finalize();
  return any;
}
