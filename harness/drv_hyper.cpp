// Driver: the hyperelastic elements (mixed displacements and pressure) on meshes with integer coordinates.
#include "common.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include "materials/MaterialFactory.h"
using namespace nla3d; using namespace nla3d::math;

static FEStorage* st; static double S = 1000; static int dim = 3; static std::vector<double> K0;
static const Dof::dofType UD[3] = {Dof::UX, Dof::UY, Dof::UZ};
static std::vector<uint32> eqs;      // equations of displacements (node by node), then pressures
static void collect() { eqs.clear(); for (uint32 n = 1; n <= st->nNodes(); n++) for (int d = 0; d < dim; d++) eqs.push_back(st->getNodeDofEqNumber(n, UD[d])); for (uint32 e = 1; e <= st->nElements(); e++) eqs.push_back(st->getElementDofEqNumber(e, Dof::HYDRO_PRESSURE)); }
static double at(uint32 i, uint32 j) {
  auto* A = st->getK(); uint32 nc = st->nConstrainedDofs(); if (i > j) std::swap(i, j);
  if (j <= nc) return A->block(1)->value(i, j);
  if (i > nc) return A->block(2)->value(i - nc, j - nc);
  return A->block(1, 2)->value(i, j - nc);
}
static std::vector<double> x0;       // state in the order of eqs
static void apply(const std::vector<double>& x) { for (size_t k = 0; k < eqs.size(); k++) (*st->getU())[eqs[k] - 1] = x[k]; st->updateResults(); }
static std::vector<double> forces() { std::vector<double> f; for (uint32 e : eqs) f.push_back((*st->getF())[e - 1]); return f; }
static std::vector<int> fx(const std::vector<double>& v, size_t a, size_t b, double s) { std::vector<int> r; for (size_t k = a; k < b; k++) r.push_back(fixp(v[k], s)); return r; }
// value of a result: asked with a preset value and a scale factor, which have to be honoured
static bool close(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(a)); }
static std::string results(Element& e) {
  std::vector<std::string> q;
  auto* hex = dynamic_cast<ElementSOLID81*>(&e); auto* quad = dynamic_cast<ElementPLANE41*>(&e); const int ng = hex ? hex->nOfIntPoints() : quad->nOfIntPoints();
  std::vector<double> lo, hi;        // least and largest value at the integration points
  auto see = [&](const std::vector<double>& v) { if (lo.empty()) lo = hi = v; for (size_t i = 0; i < v.size(); i++) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); } };
  auto put = [&](const char* n, const std::vector<int>& v) { q.push_back(std::string("[\"") + n + "\"," + jarr(v) + "," + jarr(fx(lo, 0, lo.size(), S)) + "," + jarr(fx(hi, 0, hi.size(), S)) + "]"); lo.clear(); hi.clear(); };
  for (int k = 1; k < (int) scalarQuery::LAST; k++) { double v = 0, w = 5; bool ok = e.getScalar(&v, (scalarQuery) k), o2 = e.getScalar(&w, (scalarQuery) k, GP_MEAN, 2.0); if (ok != o2) put("odd", {1}); if (ok) for (int g = 0; g < ng; g++) { double x = 0; e.getScalar(&x, (scalarQuery) k, g); see({x}); } if (ok) put(scalarQueryLabels[k], {close(v, (w - 5) / 2) ? fixp(v, S) : SENT}); }
  struct Guard { Vec<3> v; double after[8]; };
  for (int k = 1; k < (int) vectorQuery::LAST; k++) { Guard g, h; for (int i = 0; i < 3; i++) { g.v[i] = 0; h.v[i] = 5; } for (int i = 0; i < 8; i++) g.after[i] = h.after[i] = 77;
    bool ok = e.getVector(&g.v, (vectorQuery) k), o2 = e.getVector(&h.v, (vectorQuery) k, GP_MEAN, 2.0); if (ok != o2) put("odd", {2}); for (int i = 0; i < 8; i++) if (g.after[i] != 77 || h.after[i] != 77) put("odd", {3});
    if (ok) for (int p = 0; p < ng; p++) { Vec<3> x; x.zero(); e.getVector(&x, (vectorQuery) k, p); see({x[0], x[1], x[2]}); }
    if (ok) { std::vector<int> r; for (int i = 0; i < 3; i++) r.push_back(close(g.v[i], (h.v[i] - 5) / 2) ? fixp(g.v[i], S) : SENT); put(vectorQueryLabels[k], r); } }
  for (int k = 1; k < (int) tensorQuery::LAST; k++) { MatSym<3> v, w; v.zero(); for (int i = 0; i < 6; i++) w.data[i] = 5; bool ok = e.getTensor(&v, (tensorQuery) k), o2 = e.getTensor(&w, (tensorQuery) k, GP_MEAN, 2.0); if (ok != o2) put("odd", {4});
    if (ok) for (int p = 0; p < ng; p++) { MatSym<3> x; x.zero(); e.getTensor(&x, (tensorQuery) k, p); see({x.comp(0, 0), x.comp(0, 1), x.comp(0, 2), x.comp(1, 1), x.comp(1, 2), x.comp(2, 2)}); }
    if (ok) { std::vector<int> r; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) r.push_back(close(v.comp(i, j), (w.comp(i, j) - 5) / 2) ? fixp(v.comp(i, j), S) : SENT); put(tensorQueryLabels[k], r); } }
  return jarrs(q);
}
static std::string allResults() { std::vector<std::string> r; for (uint32 e = 1; e <= st->nElements(); e++) r.push_back(results(st->getElement(e))); return jarrs(r); }
static double energy(Element& e, bool jac) { double v = 0, vol = 0; Vec<3> ic; ic.zero(); e.getScalar(&vol, scalarQuery::VOL); if (jac) { e.getVector(&ic, vectorQuery::IC); return ic[2] * vol; } e.getScalar(&v, scalarQuery::WU); return v * vol; }
static size_t nu() { return st->nNodes() * dim; }
static std::string ints(const Toks& t, size_t a, size_t b) { std::vector<long> r; for (size_t k = a; k < b; k++) r.push_back(I(t[k])); return jarr(r); }
static std::string mat9(const Toks& t, size_t a) { return jarrs({ints(t, a, a + 3), ints(t, a + 3, a + 6), ints(t, a + 6, a + 9)}); }
template <class J_> static void full(J_& j) {
  st->assembleGlobalEqMatrices(); auto f = forces(); size_t n = nu(), m = eqs.size();
  j.raw("F", jarr(fx(f, 0, n, S))).raw("Fp", jarr(fx(f, n, m, S)));
  std::vector<std::string> up; std::vector<int> pp; for (size_t e = n; e < m; e++) { std::vector<int> r; for (size_t k = 0; k < n; k++) r.push_back(fixp(at(eqs[k], eqs[e]), S)); up.push_back(jarr(r)); pp.push_back(fixp(at(eqs[e], eqs[e]), S)); }
  j.raw("Kup", jarrs(up)).raw("Kpp", jarr(pp)).raw("r", allResults()); }
static double pos(uint32 n, int d) { return st->getNode(n).pos[d]; }

void runScript(const Script& sc) {
  for (auto& l : sc) { Toks t = toks(l); const std::string& c = t[0];
    if (c == "nodes") { st = new FEStorage; S = D(t[1]); dim = I(t[2]); int n = I(t[3]); st->createNodes(n); std::vector<std::string> ps;
      for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < 3; j++) { st->getNode(i + 1).pos[j] = D(t[4 + 3 * i + j]); p.push_back(I(t[4 + 3 * i + j])); } ps.push_back(jarr(p)); }
      J("nodes").i("S", (int) S).i("dim", dim).raw("p", jarrs(ps)).out(); }
    else if (c == "mat") { auto* m = MaterialFactory::createMaterial(t[1]); std::vector<long> v; for (size_t k = 2; k < t.size(); k++) { m->Ci(k - 2) = D(t[k]); v.push_back(I(t[k])); } st->material = m; J("mat").str("k", t[1]).raw("c", jarr(v)).out(); }
    else if (c == "el") { auto v = st->createElements(1, dim == 3 ? ElementType::SOLID81 : ElementType::PLANE41); for (size_t k = 1; k < t.size(); k++) st->getElement(v[0]).getNodeNumber(k - 1) = I(t[k]); J("el").raw("n", ints(t, 1, t.size())).out(); }
    else if (c == "init") { st->initDofs(); for (size_t k = 1; k + 1 < t.size(); k += 2) st->setConstrainedNodeDof(I(t[k]), UD[I(t[k + 1])]); st->assignEquationNumbers(); st->initSolutionData(); collect(); }
    else if (c == "affine") { // A (9) d t (3) p...: positions become A/d X + t
      std::vector<double> x; double d = D(t[10]); for (uint32 n = 1; n <= st->nNodes(); n++) for (int i = 0; i < dim; i++) { double v = 0; for (int j = 0; j < 3; j++) v += D(t[1 + 3 * i + j]) / d * pos(n, j); x.push_back(v + D(t[11 + i]) - pos(n, i)); }
      for (uint32 e = 0; e < st->nElements(); e++) x.push_back(D(t[14 + e])); x0 = x; apply(x);
      J j("affine"); j.raw("A", mat9(t, 1)).i("d", I(t[10])).raw("p", ints(t, 14, t.size())); full(j); j.out(); }
    else if (c == "state") { // displacements / 100, pressures
      std::vector<double> x; for (size_t k = 0; k < eqs.size(); k++) x.push_back(k < nu() ? D(t[1 + k]) / 100 : D(t[1 + k])); x0 = x; apply(x);
      J j("state"); j.raw("u", ints(t, 1, 1 + nu())).raw("p", ints(t, 1 + nu(), t.size())); full(j); j.out(); }
    else if (c == "along") { // tangent times a direction, and differences of forces and energies along it
      std::vector<double> v; for (size_t k = 0; k < eqs.size(); k++) v.push_back(D(t[1 + k])); const double h = 1.0 / (1 << 14);
      apply(x0); st->assembleGlobalEqMatrices(); std::vector<double> kv(eqs.size(), 0.0), fd; auto f0 = forces(); double fv = 0;
      for (size_t a = 0; a < eqs.size(); a++) { for (size_t b = 0; b < eqs.size(); b++) kv[a] += at(eqs[a], eqs[b]) * v[b]; if (a < nu()) fv += f0[a] * v[a]; }
      auto go = [&](double s) { auto x = x0; for (size_t k = 0; k < x.size(); k++) x[k] += s * v[k]; apply(x); st->assembleGlobalEqMatrices(); return forces(); };
      auto en = [&](double s, bool jac) { auto x = x0; for (size_t k = 0; k < nu(); k++) x[k] += s * v[k]; apply(x); std::vector<double> r; for (uint32 e = 1; e <= st->nElements(); e++) r.push_back(energy(st->getElement(e), jac)); return r; };
      auto a = go(h), b = go(-h); for (size_t k = 0; k < a.size(); k++) fd.push_back((a[k] - b[k]) / (2 * h));
      std::vector<double> w, jj; if (dim == 3) for (int jac = 0; jac < 2; jac++) { auto p = en(h, jac), q = en(-h, jac); for (size_t k = 0; k < p.size(); k++) (jac ? jj : w).push_back((p[k] - q[k]) / (2 * h)); }
      apply(x0); J("along").raw("v", ints(t, 1, t.size())).raw("kv", jarr(fx(kv, 0, kv.size(), 100))).raw("fd", jarr(fx(fd, 0, fd.size(), 100))).raw("dw", jarr(fx(w, 0, w.size(), 100))).raw("dj", jarr(fx(jj, 0, jj.size(), 100))).i("fv", fixp(fv, 100)).out(); }
    else if (c == "rotate") { // the current positions are turned by Q/q and moved
      double q = D(t[10]); auto x = x0; for (uint32 n = 1; n <= st->nNodes(); n++) for (int i = 0; i < dim; i++) { double v = 0; for (int j = 0; j < dim; j++) v += D(t[1 + 3 * i + j]) / q * (pos(n, j) + x0[(n - 1) * dim + j]); x[(n - 1) * dim + i] = v + D(t[11 + i]) - pos(n, i); }
      apply(x); J j("rotated"); j.raw("Q", mat9(t, 1)).i("q", I(t[10])); full(j); j.out(); apply(x0); }
    else if (c == "patch") { // patch steps | A (9) d | outer nodes...: outer nodes are moved by A/d, the others and the pressures are solved for
      NonlinearFESolver so; so.attachFEStorage(st); so.numberOfLoadsteps = I(t[1]); so.numberOfIterations = 25; so.convergenceCriteria = 1e-4; double d = D(t[11]); std::set<uint32> outer;
      for (size_t k = 12; k < t.size(); k++) { uint32 n = I(t[k]); outer.insert(n); for (int i = 0; i < dim; i++) { double v = 0; for (int j = 0; j < 3; j++) v += D(t[2 + 3 * i + j]) / d * pos(n, j); so.addFix(n, UD[i], v - pos(n, i)); } }
      so.solve(); collect(); std::vector<double> u; for (uint32 e : eqs) u.push_back((*st->getU())[e - 1]);
      J("patch").raw("A", mat9(t, 2)).i("d", I(t[11])).raw("u", jarr(fx(u, 0, nu(), 1000))).raw("p", jarr(fx(u, nu(), u.size(), 1000))).raw("r", allResults()).out(); }
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
