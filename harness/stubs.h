// Stand-ins for the external partitioners: record what the library passes in and return the
// partition the script chose, so that "every answer the partitioner may give" can be explored.
#include <parmetis.h>
#include <zoltan.h>
namespace vh {
template <class T> S arr(const T* a, long n) { L r; for (long i=0;i<n;i++) { long long x=(long long)a[i]; r.push_back(num(x>2000000000LL||x<-2000000000LL?2000000001LL:x)); } return list(r); }
S qarr(const ZOLTAN_ID_TYPE* a, long n) { L r; for (long i=0;i<n;i++) r.push_back(q((long long)a[i])); return list(r); }
struct Zol { int par(const S& k, int dflt) { return params.count(k)?atoi(params[k].c_str()):dflt; } MPI_Comm comm; std::map<S,S> params; std::map<int,std::pair<ZOLTAN_VOID_FN*,void*> > fns; };
template <class F> F* zfn(Zol* z, int which, void*& data) {
  if (!z->fns.count(which)) return NULL;
  data=z->fns[which].second; return (F*)z->fns[which].first;
}
}
extern "C" int ParMETIS_V3_PartKway(idx_t *vtxdist, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *adjwgt, idx_t *wgtflag,
    idx_t *numflag, idx_t *ncon, idx_t *nparts, real_t *tpwgts, real_t *ubvec, idx_t *options, idx_t *edgecut, idx_t *part, MPI_Comm *comm) {
  using namespace vh;
  int n,r; MPI_Comm_size(*comm,&n); MPI_Comm_rank(*comm,&r);
  long nv=vtxdist[r+1]-vtxdist[r];
  if (nv<0 || nv>BOUND) vh_fail("the partitioner was given an impossible vertex distribution");
  long ne=xadj[nv]; if (ne<0 || ne>BOUND) vh_fail("the partitioner was given impossible adjacency offsets");
  std::ostringstream o; bool even=true; for (int i=0;i<*nparts;i++) if (tpwgts[i]*(*nparts)<.999||tpwgts[i]*(*nparts)>1.001) even=false; (void)options;
  L gids; VertexIterator* it=g->begin(); GraphVertex* v; std::vector<GID> ids;
  while ((v=g->iterate(it))) { gids.push_back(q(g->globalID(v))); ids.push_back(g->globalID(v)); }
  o<<"{\"kind\":\"parmetis\",\"n\":"<<n<<",\"r\":"<<r<<",\"dist\":"<<arr(vtxdist,n+1)<<",\"xadj\":"<<arr(xadj,nv+1)<<",\"adj\":"<<arr(adjncy,ne)
   <<",\"vw\":"<<arr(vwgt,nv)<<",\"ew\":"<<arr(adjwgt,ne)<<",\"wf\":"<<*wgtflag<<",\"nf\":"<<*numflag<<",\"nc\":"<<*ncon<<",\"np\":"<<*nparts
   <<",\"tol\":"<<fr(ubvec[0])<<",\"tp\":"<<(even?1:0)<<",\"ids\":"<<list(gids)<<"}";
  stub.called=true; stub.input=o.str();
  for (long i=0;i<nv;i++) part[i] = i<(long)ids.size() && stub.answer.count(ids[i]) ? stub.answer[ids[i]] : 0;
  *edgecut=0;
  MPI_Barrier(*comm);
  return METIS_OK;
}
extern "C" int Zoltan_Initialize(int, char**, float* v) { *v=3; return ZOLTAN_OK; }
extern "C" struct Zoltan_Struct* Zoltan_Create(MPI_Comm c) { vh::Zol* z=new vh::Zol; z->comm=c; return (struct Zoltan_Struct*)z; }
extern "C" int Zoltan_Set_Param(struct Zoltan_Struct* z, const char* a, const char* b) { ((vh::Zol*)z)->params[a]=b; return ZOLTAN_OK; }
extern "C" int Zoltan_Set_Fn(struct Zoltan_Struct* z, ZOLTAN_FN_TYPE t, ZOLTAN_VOID_FN* f, void* d) { ((vh::Zol*)z)->fns[(int)t]=std::make_pair(f,d); return ZOLTAN_OK; }
extern "C" void Zoltan_Destroy(struct Zoltan_Struct** z) { delete (vh::Zol*)*z; *z=NULL; }
extern "C" int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) { delete [] *a; delete [] *b; delete [] *c; delete [] *d; *a=*b=NULL; *c=*d=NULL; return ZOLTAN_OK; }
extern "C" int Zoltan_LB_Partition(struct Zoltan_Struct* zz, int* changes, int* ngid, int* nlid, int* nimp, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** ipart,
    int* nexp, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** epart) {
  using namespace vh; Zol* z=(Zol*)zz; void* d=NULL; int err=0;
  int n,r; MPI_Comm_size(z->comm,&n); MPI_Comm_rank(z->comm,&r);
  ZOLTAN_NUM_OBJ_FN* nf=zfn<ZOLTAN_NUM_OBJ_FN>(z,ZOLTAN_NUM_OBJ_FN_TYPE,d); if (!nf) vh_fail("no object callback");
  int nv=nf(d,&err); if (nv<0||nv>BOUND) vh_fail("impossible number of objects");
  std::vector<ZOLTAN_ID_TYPE> gid(nv+1),lid(nv+1); std::vector<float> w(nv+1);
  ZOLTAN_OBJ_LIST_FN* lf=zfn<ZOLTAN_OBJ_LIST_FN>(z,ZOLTAN_OBJ_LIST_FN_TYPE,d); int od=z->par("OBJ_WEIGHT_DIM",0), ed=z->par("EDGE_WEIGHT_DIM",0); if (od<0||od>4||ed<0||ed>4) vh_fail("impossible number of weights"); w.resize((nv+1)*(od+1));
  lf(d,1,1,&gid[0],&lid[0],od,od?&w[0]:NULL,&err);
  std::ostringstream o; L W; for (int i=0;od&&i<nv;i++) W.push_back(fr(w[i*od]));
  o<<"{\"kind\":\"zoltan\",\"n\":"<<n<<",\"r\":"<<r<<",\"ids\":"<<qarr(&gid[0],nv)<<",\"lids\":"<<qarr(&lid[0],nv)<<",\"vw\":"<<list(W)<<",\"method\":"<<esc(z->params["LB_METHOD"])
   <<",\"np\":"<<(int)atoi(z->params["NUM_GLOBAL_PARTS"].c_str())<<",\"lp\":"<<z->par("NUM_LOCAL_PARTS",1)<<",\"tol\":"<<fr(atof(z->params["IMBALANCE_TOL"].c_str()));
  L A; 
  if (z->params["LB_METHOD"]=="HYPERGRAPH") {
    int nl=0,np=0,fmt=0; ZOLTAN_HG_SIZE_CS_FN* sf=zfn<ZOLTAN_HG_SIZE_CS_FN>(z,ZOLTAN_HG_SIZE_CS_FN_TYPE,d); if (!sf) vh_fail("no hypergraph callback"); sf(d,&nl,&np,&fmt,&err);
    // room for whatever is written; the list the partitioner reads is as long as the pin count says
    if (nl<0||nl>BOUND||np<0||np>BOUND) vh_fail("impossible hypergraph size given to the partitioner");
    size_t room=np+1; { VertexIterator* it=g->begin(); GraphVertex* v; while ((v=g->iterate(it))) for (etype k=0;k<g->numEdgeTypes();k++) room+=g->degree(v,k); }
    std::vector<ZOLTAN_ID_TYPE> vg(nl+1),pin(room+8,987654321); std::vector<int> off(nl+2);
    ZOLTAN_HG_CS_FN* cf=zfn<ZOLTAN_HG_CS_FN>(z,ZOLTAN_HG_CS_FN_TYPE,d); cf(d,1,nl,np,fmt,&vg[0],&off[0],&pin[0],&err); off[nl]=np;
    for (int i=0;i<nl;i++) { if (off[i]<0||off[i+1]<off[i]||off[i+1]>(int)room) vh_fail("impossible offsets given to the partitioner"); A.push_back("{\"g\":"+q(vg[i])+",\"e\":"+qarr(&pin[off[i]],off[i+1]-off[i])+",\"ow\":[],\"w\":[]}"); }
    int nw=0; ZOLTAN_HG_SIZE_EDGE_WTS_FN* ewf=zfn<ZOLTAN_HG_SIZE_EDGE_WTS_FN>(z,ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE,d); ewf(d,&nw,&err);
    if (nw<0||nw>BOUND) vh_fail("impossible number of edges"); std::vector<ZOLTAN_ID_TYPE> wg(nw+1),wl(nw+1); std::vector<float> ww((nw+1)*(ed+1));
    ZOLTAN_HG_EDGE_WTS_FN* wf=zfn<ZOLTAN_HG_EDGE_WTS_FN>(z,ZOLTAN_HG_EDGE_WTS_FN_TYPE,d); if (ed) wf(d,1,1,nw,ed,&wg[0],&wl[0],&ww[0],&err);
    L EW; for (int i=0;ed&&i<nw;i++) EW.push_back("["+q(wg[i])+","+fr(ww[i*ed])+"]");
    o<<",\"adj\":"<<list(A)<<",\"ew\":"<<list(EW);
  } else {
    ZOLTAN_NUM_EDGES_FN* ne=zfn<ZOLTAN_NUM_EDGES_FN>(z,ZOLTAN_NUM_EDGES_FN_TYPE,d); if (!ne) vh_fail("no graph callback"); void* d2=NULL; ZOLTAN_EDGE_LIST_FN* le=zfn<ZOLTAN_EDGE_LIST_FN>(z,ZOLTAN_EDGE_LIST_FN_TYPE,d2);
    for (int i=0;i<nv;i++) { int k=ne(d,1,1,&gid[i],&lid[i],&err); if (k<0||k>BOUND) vh_fail("impossible degree"); std::vector<ZOLTAN_ID_TYPE> nb(k+1); std::vector<int> ow(k+1); std::vector<float> ew((k+1)*(ed+1));
      le(d2,1,1,&gid[i],&lid[i],&nb[0],&ow[0],ed,ed?&ew[0]:NULL,&err); L x; for (int j=0;j<k;j++) x.push_back(ed?fr(ew[j*ed]):S("0"));
      A.push_back("{\"g\":"+q(gid[i])+",\"e\":"+qarr(&nb[0],k)+",\"ow\":"+arr(&ow[0],k)+",\"w\":"+list(x)+"}"); }
    o<<",\"adj\":"<<list(A)<<",\"ew\":[]";
  }
  o<<"}"; stub.called=true; stub.input=o.str();
  *changes=1; *ngid=*nlid=1; *nimp=0; *ig=*il=NULL; *ip=*ipart=NULL;
  // exports: the vertices whose part differs from this process
  std::vector<int> ex; for (int i=0;i<nv;i++) { int p=stub.answer.count(gid[i])?stub.answer[gid[i]]:r; if (p!=r) ex.push_back(i); }
  if (z->params.count("RETURN_LISTS") && z->params["RETURN_LISTS"].find("EXP")==S::npos && z->params["RETURN_LISTS"].find("ALL")==S::npos && z->params["RETURN_LISTS"].find("PART")==S::npos) { *nexp=-1; *eg=*el=NULL; *ep=*epart=NULL; MPI_Barrier(z->comm); return ZOLTAN_OK; }
  *nexp=ex.size(); *eg=new ZOLTAN_ID_TYPE[ex.size()+1]; *el=new ZOLTAN_ID_TYPE[ex.size()+1]; *ep=new int[ex.size()+1]; *epart=new int[ex.size()+1];
  for (size_t k=0;k<ex.size();k++) { int i=ex[k]; (*eg)[k]=gid[i]; (*el)[k]=lid[i]; (*ep)[k]=(*epart)[k]=stub.answer[gid[i]]; }
  MPI_Barrier(z->comm);
  return ZOLTAN_OK;
}
