// Scripted finite element models: elements with prescribed integer matrices, recording post-processor.
#pragma once
#include "common.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "Mpc.h"
#include "PostProcessor.h"
#include "ReactionProcessor.h"
#include "elements/element.h"
#include "elements/ElementFactory.h"
#include "FEComponent.h"
using namespace nla3d; using namespace nla3d::math;

static const std::vector<std::pair<std::string, Dof::dofType>> DOFS = {
  {"UX", Dof::UX}, {"UY", Dof::UY}, {"UZ", Dof::UZ}, {"ROTX", Dof::ROTX}, {"ROTY", Dof::ROTY}, {"ROTZ", Dof::ROTZ},
  {"HYDRO_PRESSURE", Dof::HYDRO_PRESSURE}, {"TEMP", Dof::TEMP}};
inline Dof::dofType dofOf(const std::string& s) { for (auto& d : DOFS) if (d.first == s) return d.second; abort(); }
inline std::string nameOf(Dof::dofType t) { for (auto& d : DOFS) if (d.second == t) return d.first; return "?"; }
typedef std::vector<std::vector<double>> DM;

struct FEDrv;
struct HData {
  std::vector<Dof::dofType> dofs, edofs; int path = 0; double tang = 1.0; bool nonlin = false;
  DM K, C, M; std::vector<double> F;
  int preN = 0, kN = 0, updN = 0;
  std::vector<double> seen;           // DoF values the element saw at its last update
};
struct HBase { HData d; virtual ~HBase() {} virtual Element* el() = 0; };

template <class B> struct HEl : public B, public HBase {
  Element* el() override { return this; }
  uint32 eqOf(size_t a) {
    size_t nd = d.dofs.size();
    if (a < nd * this->getNNodes()) return this->storage->getNodeDofEqNumber(this->nodes[a / nd], d.dofs[a % nd]);
    return this->storage->getElementDofEqNumber(this->elNum, d.edofs[a - nd * this->getNNodes()]);
  }
  double uOf(size_t a) {
    size_t nd = d.dofs.size();
    if (a < nd * this->getNNodes()) return this->storage->getNodeDofSolution(this->nodes[a / nd], d.dofs[a % nd]);
    return this->storage->getElementDofSolution(this->elNum, d.edofs[a - nd * this->getNNodes()]);
  }
  size_t ndof() { return d.dofs.size() * this->getNNodes() + d.edofs.size(); }
  void pre() override {
    d.preN++;
    for (uint16 i = 0; i < this->getNNodes(); i++) {
      auto& q = d.dofs; uint32 n = this->nodes[i];
      switch (q.size()) {
        case 0: break;
        case 1: this->storage->addNodeDof(n, {q[0]}); break;
        case 2: this->storage->addNodeDof(n, {q[0], q[1]}); break;
        case 3: this->storage->addNodeDof(n, {q[0], q[1], q[2]}); break;
        default: for (auto t : q) this->storage->addNodeDof(n, {t});
      }
    }
    if (d.edofs.size() == 1) this->storage->addElementDof(this->elNum, {d.edofs[0]});
    if (d.edofs.size() == 2) this->storage->addElementDof(this->elNum, {d.edofs[0], d.edofs[1]});
  }
  void direct(const DM& A, int which, double f) {
    size_t nd = d.dofs.size(), nn = nd * this->getNNodes();
    for (size_t a = 0; a < ndof(); a++) for (size_t b = a; b < ndof(); b++) {
      if (a < nn && b < nn && d.path != 0 && d.path != 4) continue;
      double v = A[a][b] * f;
      bool nodal = a < nn && b < nn && d.path == 0;
      uint32 n1 = nodal ? this->nodes[a / nd] : 0, n2 = nodal ? this->nodes[b / nd] : 0;
      if (which == 0) { if (nodal) this->storage->addValueK(n1, d.dofs[a % nd], n2, d.dofs[b % nd], v); else this->storage->addValueK(eqOf(a), eqOf(b), v); }
      if (which == 1) { if (nodal) this->storage->addValueC(n1, d.dofs[a % nd], n2, d.dofs[b % nd], v); else this->storage->addValueC(eqOf(a), eqOf(b), v); }
      if (which == 2) { if (nodal) this->storage->addValueM(n1, d.dofs[a % nd], n2, d.dofs[b % nd], v); else this->storage->addValueM(eqOf(a), eqOf(b), v); }
    }
  }
  template <uint16 n> void sym(const DM& A, int which, double f, std::initializer_list<Dof::dofType> il, const std::vector<double>* Fe) {
    if (d.path == 3 && which == 0) {
      Eigen::MatrixXd E(n, n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) E(a, b) = a <= b ? A[a][b] * f : -777.0; // only the upper triangle counts
      this->assembleK(E, il); return;
    }
    MatSym<n> S; S.zero(); for (uint16 a = 0; a < n; a++) for (uint16 b = a; b < n; b++) S.comp(a, b) = A[a][b] * f;
    if (which == 0 && Fe) { Vec<n> V; for (uint16 a = 0; a < n; a++) V[a] = (*Fe)[a]; this->assembleK(S, V, il); }
    else if (which == 0) this->assembleK(S, il);
    else if (which == 1) this->assembleC(S, il);
    else this->assembleM(S, il);
  }
  void disp(const DM& A, int which, double f, std::initializer_list<Dof::dofType> il, const std::vector<double>* Fe) {
    switch (d.dofs.size() * this->getNNodes()) {
      case 1: sym<1>(A, which, f, il, Fe); break;   case 2: sym<2>(A, which, f, il, Fe); break;
      case 3: sym<3>(A, which, f, il, Fe); break;   case 4: sym<4>(A, which, f, il, Fe); break;
      case 6: sym<6>(A, which, f, il, Fe); break;   case 8: sym<8>(A, which, f, il, Fe); break;
      case 9: sym<9>(A, which, f, il, Fe); break;   case 12: sym<12>(A, which, f, il, Fe); break;
      case 16: sym<16>(A, which, f, il, Fe); break;  case 24: sym<24>(A, which, f, il, Fe); break;
      default: abort();
    }
  }
  void put(const DM& A, int which, double f, const std::vector<double>* Fe) {
    direct(A, which, f);
    if (d.path == 0 || d.path == 4) return;
    auto& q = d.dofs;
    switch (q.size()) {
      case 1: disp(A, which, f, {q[0]}, Fe); break;
      case 2: disp(A, which, f, {q[0], q[1]}, Fe); break;
      case 3: disp(A, which, f, {q[0], q[1], q[2]}, Fe); break;
      default: break;
    }
  }
  void buildK() override;
  void buildC() override;
  void buildM() override;
  void update() override;
  bool getScalar(double* s, scalarQuery q, uint16 gp, const double scale) override { if (q == scalarQuery::VOL) { *s += scale * this->elNum * 3; return true; } return false; }
};

struct Recorder;
struct FEDrv {
  FEStorage* st = nullptr; FESolver* so = nullptr; std::vector<HBase*> els; std::vector<Mpc*> mpcs; std::vector<RigidBodyMpc*> rigids;
  double S = 1.0; double q = 1.0; bool calls = false; bool full = true; int stepsSeen = 0; bool iter = false;
  std::vector<ReactionProcessor*> rps; std::vector<std::string> rpFile; NonlinearFESolver* nl = nullptr;

  // q: unit of stiffness and force (values are observed in that unit); multipliers are forces, constraint rows have no unit
  std::string vec(const dVec* v, bool force = false) { std::string r = "["; for (uint32 i = 0; i < v->size(); i++) { if (i) r += ","; r += std::to_string(fixp((*v)[i] / (force == (i < st->nDofs()) ? q : 1.0), S)); } return r + "]"; }
  double entry(BlockSparseSymMatrix<2>* A, uint32 i, uint32 j) {
    uint32 nc = st->nConstrainedDofs(); if (i > j) std::swap(i, j);
    if (j <= nc) return A->block(1)->value(i, j);
    if (i > nc) return A->block(2)->value(i - nc, j - nc);
    return A->block(1, 2)->value(i, j - nc);
  }
  std::string mat(BlockSparseSymMatrix<2>* A, double sc = 1.0) {
    uint32 n = st->nDofs() + st->nMpc(); std::vector<std::string> rows;
    for (uint32 i = 1; i <= n; i++) { std::vector<int> r; for (uint32 j = 1; j <= n; j++) { double e = entry(A, i, j); if (q != 1.0 && i <= st->nDofs() && j <= st->nDofs()) { e /= q; if (fabs(e - rint(e)) < 1e-9 * (1 + fabs(e))) e = rint(e); } r.push_back(sc == 1.0 ? exact(e) : fixp(e, sc)); } rows.push_back(jarr(r)); }
    return jarrs(rows);
  }
  std::string table() {
    std::vector<std::string> rows;
    for (uint32 e = 1; e <= st->nElements(); e++) for (auto& d : DOFS) if (st->nElements() && st->isElementDofUsed(e, d.second)) {
      Dof* p = st->getElementDof(e, d.second);
      rows.push_back("[\"E\"," + std::to_string(e) + ",\"" + d.first + "\"," + std::to_string(st->getElementDofEqNumber(e, d.second)) + "," + (p->isConstrained ? "1" : "0") + "]");
    }
    for (uint32 n = 1; n <= st->nNodes(); n++) for (auto& d : DOFS) if (st->isNodeDofUsed(n, d.second)) {
      Dof* p = st->getNodeDof(n, d.second);
      rows.push_back("[\"N\"," + std::to_string(n) + ",\"" + d.first + "\"," + std::to_string(st->getNodeDofEqNumber(n, d.second)) + "," + (p->isConstrained ? "1" : "0") + "]");
    }
    return jarrs(rows);
  }
  std::string meqs() {
    std::vector<int> m; for (auto* p : mpcs) m.push_back(p->eqNum);
    return jarr(m);
  }
  // equations of the rigid bodies: [collection, slave node, slave DoF, equation]
  std::string reqs() {
    std::vector<std::string> m; int k = 0;
    for (auto* r : rigids) { k++; for (auto* p : r->collection) { int n = 0; std::string d = "?"; for (auto& t : p->eq) if (t.node != (int32) r->masterNode) { n = t.node; d = nameOf(t.node_dof); }
      m.push_back("[" + std::to_string(k) + "," + std::to_string(n) + ",\"" + d + "\"," + std::to_string(p->eqNum) + "]"); } }
    return jarrs(m);
  }
  void evAssign(const char* name) {
    J(name).i("nd", st->nDofs()).i("nc", st->nConstrainedDofs()).i("nu", st->nUnknownDofs()).i("nm", st->nMpc()).raw("t", table()).raw("m", meqs()).raw("r", reqs()).out();
  }
  void evAsm(const char* name = "asm") {
    J j(name); j.raw("K", mat(st->getK())).raw("F", vec(st->getF(), true)).b("tr", st->isTransient());
    if (st->isTransient()) j.raw("C", mat(st->getC())).raw("M", mat(st->getM())).i("crows", st->getC()->nRows()).i("mrows", st->getM()->nRows());
    j.i("krows", st->getK()->nRows()).out();
  }
  void evRes(const char* name, int step) {
    J j(name); j.i("step", step).raw("U", vec(st->getU())).raw("R", vec(st->getR(), true));
    if (st->isTransient()) j.raw("DU", vec(st->getDU())).raw("DDU", vec(st->getDDU()));
    j.out();
  }
  // values through the nodal getters
  void evGet(const char* name) {
    std::vector<std::string> rows;
    for (uint32 n = 1; n <= st->nNodes(); n++) {
      double p0[3], p1[3]; st->getNodePosition(n, p0, false); st->getNodePosition(n, p1, true);
      rows.push_back("{\"n\":" + std::to_string(n) + ",\"p\":[" + std::to_string(fixp(p0[0], S)) + "," + std::to_string(fixp(p0[1], S)) + "," + std::to_string(fixp(p0[2], S)) + "],\"q\":[" +
        std::to_string(fixp(p1[0], S)) + "," + std::to_string(fixp(p1[1], S)) + "," + std::to_string(fixp(p1[2], S)) + "],\"v\":[" + [&]() { std::string r; bool f = true;
          for (auto& d : DOFS) { if (!f) r += ","; f = false;
            bool u = st->isNodeDofUsed(n, d.second);
            r += "[\"" + d.first + "\"," + (u ? std::to_string(fixp(st->getNodeDofSolution(n, d.second), S)) : std::string("0")) + "," + std::to_string(fixp(st->getReaction(n, d.second) / q, S)) + "," + (u ? "1" : "0") + "]"; }
          return r; }() + "]}");
    }
    J(name).raw("v", jarrs(rows)).out();
  }
  void addElem(const Toks& t);
  void cmd(const Toks& t);
  void evDump();
  void evElem(int k);
};
static FEDrv fe;

struct Recorder : public PostProcessor {
  int id; bool full; Recorder(FEStorage* s, int i, bool f) : PostProcessor(s), id(i), full(f) {}
  void pre() override { J("ppre").i("id", id).i("num", getProc_num()).out(); if (full) fe.evAssign("assign"); }
  void process(uint16 s) override { J("pproc").i("id", id).i("step", s).out(); if (full) { if (fe.full) fe.evAsm(); fe.evRes("res", s); } }
  void post(uint16 s) override { J("ppost").i("id", id).i("step", s).out(); if (full && fe.full) fe.evGet("getters"); }
};

template <class B> void HEl<B>::buildC() { put(d.C, 1, fe.q, nullptr); }
template <class B> void HEl<B>::buildM() { put(d.M, 2, fe.q, nullptr); }
template <class B> void HEl<B>::buildK() {
  d.kN++;
  if (fe.iter && this->elNum == 1) { J j("iter"); j.raw("U", fe.vec(this->storage->getU()));
    if (fe.nl) j.i("t", fixp(fe.nl->timeControl.getCurrentNormalizedTime(), fe.S)).i("st", fe.nl->timeControl.getCurrentStep()).i("it", fe.nl->timeControl.getCurrentEquilibriumStep()).i("tot", fe.nl->timeControl.getTotalNumberOfEquilibriumSteps());
    j.out(); }
  std::vector<double> Fe(ndof(), 0.0);
  for (size_t a = 0; a < ndof(); a++) { Fe[a] = d.F[a]; if (d.nonlin) for (size_t b = 0; b < ndof(); b++) Fe[a] -= d.K[a][b] * uOf(b); Fe[a] *= fe.q; }
  size_t nn = d.dofs.size() * this->getNNodes();
  bool viaVec = d.path == 2 && nn > 0;
  put(d.K, 0, d.tang * fe.q, viaVec ? &Fe : nullptr);
  for (size_t a = viaVec ? nn : 0; a < ndof(); a++) {
    if (a < nn && d.path == 0) this->storage->addValueF(this->nodes[a / d.dofs.size()], d.dofs[a % d.dofs.size()], Fe[a]);
    else this->storage->addValueF(eqOf(a), Fe[a]);
  }
}
template <class B> void HEl<B>::update() {
  d.updN++; d.seen.clear(); for (size_t a = 0; a < ndof(); a++) d.seen.push_back(uOf(a));
  if (fe.iter && this->elNum == 1) J("upd").raw("U", fe.vec(this->storage->getU())).raw("R", fe.vec(this->storage->getR(), true)).out();
}

inline HBase* makeH(const std::string& sh) {
  if (sh == "VERTEX") return new HEl<ElementVERTEX>; if (sh == "TWIN") return new HEl<ElementTWIN_VERTEX>;
  if (sh == "LINE") return new HEl<ElementLINE>;     if (sh == "TRIANGLE") return new HEl<ElementTRIANGLE>;
  if (sh == "QUAD") return new HEl<ElementQUAD>;     if (sh == "TETRA") return new HEl<ElementTETRA>;
  if (sh == "HEXA") return new HEl<ElementHEXAHEDRON>; if (sh == "WEDGE") return new HEl<ElementWEDGE>;
  abort();
}
inline std::string dm(const DM& A) { std::vector<std::string> r; for (auto& x : A) { std::vector<int> q; for (double v : x) q.push_back(exact(v)); r.push_back(jarr(q)); } return jarrs(r); }
inline void FEDrv::evElem(int k) {
  HBase* h = els[k - 1]; Element* e = h->el(); std::vector<std::string> ds, es; std::vector<int> nn, ff;
  for (auto q : h->d.dofs) ds.push_back(nameOf(q)); for (auto q : h->d.edofs) es.push_back(nameOf(q));
  for (uint16 i = 0; i < e->getNNodes(); i++) nn.push_back(e->getNodeNumber(i)); for (double v : h->d.F) ff.push_back(exact(v));
  J("elem").i("n", k).i("num", e->getElNum()).raw("nodes", jarr(nn)).raw("dofs", jstrs(ds)).raw("edofs", jstrs(es)).raw("K", dm(h->d.K)).raw("C", dm(h->d.C)).raw("M", dm(h->d.M))
    .raw("F", jarr(ff)).i("tang", exact(h->d.tang)).b("nl", h->d.nonlin).out();
}
// elem SHAPE path tang nl D <dofs> E <edofs> N <nodes> K <upper triangle by rows> [F ..] [C ..] [M ..]
inline void FEDrv::addElem(const Toks& t) {
  HBase* h = makeH(t[1]); h->d.path = I(t[2]); h->d.tang = I(t[3]); h->d.nonlin = I(t[4]) != 0;
  std::map<char, std::vector<std::string>> a; char cur = 0;
  for (size_t k = 5; k < t.size(); k++) { if (t[k].size() == 1 && isupper(t[k][0])) cur = t[k][0]; else a[cur].push_back(t[k]); }
  for (auto& s : a['D']) h->d.dofs.push_back(dofOf(s)); for (auto& s : a['E']) h->d.edofs.push_back(dofOf(s));
  Element* e = h->el(); size_t n = h->d.dofs.size() * e->getNNodes() + h->d.edofs.size();
  for (uint16 i = 0; i < e->getNNodes(); i++) e->getNodeNumber(i) = I(a['N'][i]);
  auto fill = [&](DM& A, std::vector<std::string>& v) { A.assign(n, std::vector<double>(n, 0.0)); size_t p = 0; if (v.size()) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) A[i][j] = A[j][i] = D(v.at(p++)); };
  fill(h->d.K, a['K']); fill(h->d.C, a['C']); fill(h->d.M, a['M']);
  h->d.F.assign(n, 0.0); for (size_t i = 0; i < a['F'].size(); i++) h->d.F[i] = D(a['F'][i]);
  els.push_back(h); st->addElement(e); evElem(els.size());
}
