// Driver: the linear finite elements of the library on meshes with integer coordinates and rational
// material data; assembled matrices and results are observed in fixed point.
#include "common.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "elements/TRUSS3.h"
#include "elements/TRIANGLE4.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
using namespace nla3d; using namespace nla3d::math;

static FEStorage* st; static double S = 1; static std::vector<std::string> types; static std::vector<std::pair<uint32, Dof::dofType>> keys;
static const std::vector<std::pair<std::string, Dof::dofType>> DT = {{"UX", Dof::UX}, {"UY", Dof::UY}, {"UZ", Dof::UZ}, {"TEMP", Dof::TEMP}};

template <class T> static T& mk(ElementType t, const Toks& a, size_t nn) {
  auto v = st->createElements(1, t); T& e = dynamic_cast<T&>(st->getElement(v[0]));
  for (size_t i = 0; i < nn; i++) e.getNodeNumber(i) = I(a[1 + i]);
  return e;
}
static double at(BlockSparseSymMatrix<2>* A, uint32 i, uint32 j) {
  uint32 nc = st->nConstrainedDofs(); if (i > j) std::swap(i, j);
  if (j <= nc) return A->block(1)->value(i, j);
  if (i > nc) return A->block(2)->value(i - nc, j - nc);
  return A->block(1, 2)->value(i, j - nc);
}
static std::string mat(BlockSparseSymMatrix<2>* A) {
  std::vector<std::string> rows;
  for (auto& k : keys) { std::vector<int> r; for (auto& m : keys) r.push_back(fixp(at(A, st->getNodeDofEqNumber(k.first, k.second), st->getNodeDofEqNumber(m.first, m.second)), S)); rows.push_back(jarr(r)); }
  return jarrs(rows);
}
static void evBuilt() {
  std::vector<std::string> ks; std::vector<int> F;
  for (auto& k : keys) { std::string n; for (auto& d : DT) if (d.second == k.second) n = d.first; ks.push_back("[" + std::to_string(k.first) + ",\"" + n + "\"]"); F.push_back(fixp((*st->getF())[st->getNodeDofEqNumber(k.first, k.second) - 1], S)); }
  J j("built"); j.raw("k", jarrs(ks)).raw("K", mat(st->getK())).raw("F", jarr(F)).b("tr", st->isTransient()); if (st->isTransient()) j.raw("C", mat(st->getC())).raw("M", mat(st->getM())); j.out();
}
// value of a result: asked with a preset value and a scale factor, which have to be honoured
static int askS(Element& e, scalarQuery q, bool& ok) { double v = 0, w = 5; ok = e.getScalar(&v, q); bool o2 = e.getScalar(&w, q, GP_MEAN, 2.0); if (o2 != ok || fabs((w - 5) / 2 - v) > 1e-9 * (1 + fabs(v))) return SENT; return fixp(v, S); }
static std::vector<int> askV(Element& e, vectorQuery q, bool& ok) { Vec<3> v, w; for (int i = 0; i < 3; i++) w[i] = 5; ok = e.getVector(&v, q); bool o2 = e.getVector(&w, q, GP_MEAN, 2.0); std::vector<int> r; for (int i = 0; i < 3; i++) r.push_back(o2 != ok || fabs((w[i] - 5) / 2 - v[i]) > 1e-9 * (1 + fabs(v[i])) ? (ok ? SENT : 0) : fixp(v[i], S)); return r; }
static std::vector<int> askT(Element& e, tensorQuery q, bool& ok) { MatSym<3> v, w; v.zero(); for (int i = 0; i < 6; i++) w.data[i] = 5; ok = e.getTensor(&v, q); bool o2 = e.getTensor(&w, q, GP_MEAN, 2.0); std::vector<int> r; int ix[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}};
  for (auto& p : ix) { double a = v.comp(p[0], p[1]), b = (w.comp(p[0], p[1]) - 5) / 2; r.push_back(o2 != ok || (ok && fabs(b - a) > 1e-9 * (1 + fabs(a))) ? SENT : fixp(ok ? a : 0, S)); } return r; }

static void evRes() {
  std::vector<std::string> rs;
  for (size_t i = 0; i < types.size(); i++) {
    Element& e = st->getElement(i + 1); const std::string& t = types[i]; std::vector<std::string> q;
    auto put = [&](const char* n, const std::vector<int>& v) { q.push_back(std::string("[\"") + n + "\"," + jarr(v) + "]"); };
    if (t == "TRUSS3") put("S", {fixp(dynamic_cast<ElementTRUSS3&>(e).S, S)});
    if (t == "TRI") { auto& x = dynamic_cast<ElementTRIANGLE4&>(e); std::vector<int> a, b; for (int k = 0; k < 3; k++) { a.push_back(fixp(x.strains[k], S)); b.push_back(fixp(x.stress[k], S)); } put("eps", a); put("sig", b); }
    if (t == "QUADTH") put("vol", {fixp(dynamic_cast<ElementQUADTH&>(e).volume(), S)});
    if (t == "LINETH") put("vol", {fixp(dynamic_cast<SurfaceLINETH&>(e).volume(), S)});
    bool ok;
    for (int k = 1; k < (int) scalarQuery::LAST; k++) { int v = askS(e, (scalarQuery) k, ok); if (ok) put(scalarQueryLabels[k], {v}); }
    for (int k = 1; k < (int) vectorQuery::LAST; k++) { auto v = askV(e, (vectorQuery) k, ok); if (ok) put(vectorQueryLabels[k], v); }
    for (int k = 1; k < (int) tensorQuery::LAST; k++) { auto v = askT(e, (tensorQuery) k, ok); if (ok) put(tensorQueryLabels[k], v); }
    rs.push_back(jarrs(q));
  }
  J("res").raw("r", jarrs(rs)).out();
}
static void ev(const Toks& t, size_t nn) { types.push_back(t[0]); std::vector<long> n, p; for (size_t k = 1; k < t.size(); k++) (k <= nn ? n : p).push_back(I(t[k])); J("el").str("t", t[0]).raw("n", jarr(n)).raw("p", jarr(p)).out(); }

void runScript(const Script& sc) {
  for (auto& l : sc) { Toks t = toks(l); const std::string& c = t[0];
    if (c == "nodes") { st = new FEStorage; S = D(t[1]); int n = I(t[2]); st->createNodes(n); std::vector<std::string> ps;
      for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < 3; j++) { st->getNode(i + 1).pos[j] = D(t[3 + 3 * i + j]); p.push_back(I(t[3 + 3 * i + j])); } ps.push_back(jarr(p)); }
      J("nodes").i("S", (int) S).raw("p", jarrs(ps)).out(); }
    else if (c == "TRUSS3") { auto& e = mk<ElementTRUSS3>(ElementType::TRUSS3, t, 2); e.E = D(t[3]); e.A = D(t[4]); ev(t, 2); }
    else if (c == "TRI") { auto& e = mk<ElementTRIANGLE4>(ElementType::TRIANGLE4, t, 3); e.state = t[4] == "0" ? PlaneState::Strain : PlaneState::Stress; e.E = D(t[5]); e.my = D(t[6]) / D(t[7]); ev(t, 3); }
    else if (c == "TETRA0") { // E p q : my = p/q; a : alpha * T = a/2; kind 0/1/2: no initial state, initial strains v/8, initial stresses v
      auto& e = mk<ElementTETRA0>(ElementType::TETRA0, t, 4); e.E = D(t[5]); e.my = D(t[6]) / D(t[7]); e.alpha = D(t[8]) * 0.25; e.T = 2;
      for (int k = 0; k < 6; k++) { if (t[9] == "1") e.strains[k] = D(t[10 + k]) / 8; if (t[9] == "2") e.stress[k] = D(t[10 + k]); } ev(t, 4); }
    else if (c == "TETRA1") { auto& e = mk<ElementTETRA1>(ElementType::TETRA1, t, 4); e.k = D(t[5]); ev(t, 4); }
    else if (c == "QUADTH") { auto& e = mk<ElementQUADTH>(ElementType::QUADTH, t, 4); e.k = D(t[5]); e.rho = D(t[6]); e.c = D(t[7]); e.volFlux = D(t[8]); if (t[9] != "0") e.setIntegrationOrder(I(t[9])); ev(t, 4); }
    else if (c == "LINETH") { auto& e = mk<SurfaceLINETH>(ElementType::SurfaceLINETH, t, 2); e.flux = D(t[3]); e.htc = D(t[4]); e.etemp[0] = D(t[5]); e.etemp[1] = D(t[6]); if (t[7] != "0") e.setIntegrationOrder(I(t[7])); ev(t, 2); }
    else if (c == "INTER0") { auto& e = mk<ElementINTER0>(ElementType::INTER0, t, 2); e.kn = D(t[3]); e.ks = D(t[4]); for (int k = 0; k < 3; k++) e.n[k] = D(t[5 + k]); ev(t, 2); }
    else if (c == "INTER3") { auto& e = mk<ElementINTER3>(ElementType::INTER3, t, 6); e.kn = D(t[7]); e.ks = D(t[8]); ev(t, 6); }
    else if (c == "build") { st->setTransient(t[1] == "1"); st->initDofs();
      for (size_t k = 2; k + 1 < t.size(); k += 2) for (auto& d : DT) if (d.first == t[k + 1]) st->setConstrainedNodeDof(I(t[k]), d.second);
      st->assignEquationNumbers(); st->initSolutionData(); st->assembleGlobalEqMatrices();
      keys.clear(); for (uint32 n = 1; n <= st->nNodes(); n++) for (auto& d : DT) if (st->isNodeDofUsed(n, d.second)) keys.push_back({n, d.second});
      evBuilt(); }
    else if (c == "assemble") { st->assembleGlobalEqMatrices(); evBuilt(); }
    else if (c == "set") { std::vector<long> v; // values of all DoFs, then the elements are updated
      for (size_t k = 0; k < keys.size(); k++) { long x = I(t[1 + k % (t.size() - 1)]); v.push_back(x); (*st->getU())[st->getNodeDofEqNumber(keys[k].first, keys[k].second) - 1] = x; }
      st->updateResults(); J("set").raw("u", jarr(v)).out(); evRes(); }
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
