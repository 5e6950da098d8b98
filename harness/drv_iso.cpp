// Driver: isoparametric lines, quadrangles and hexahedra.
#include "common.h"
#include "FEStorage.h"
#include "elements/element.h"
#include "elements/isoparametric.h"
using namespace nla3d; using namespace nla3d::math;
template <class B> struct Dummy : public B { void pre() { this->makeJacob(); } void buildK() {} void update() {} };
typedef Dummy<ElementIsoParamLINE> Li; typedef Dummy<ElementIsoParamQUAD> Qu; typedef Dummy<ElementIsoParamHEXAHEDRON> He;
static FEStorage* st; static Li* li; static Qu* qu; static He* he; static int Dm, NN; static std::vector<std::vector<int>> snap;
static bool near(const std::vector<double>& a, const std::vector<double>& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); i++) r = fabs(a[i] - b[i]) < 1e-9; return r; }
static int ex(double v) { return exact(v, 1e-6 * (1 + fabs(v))); }
static Element& elem() { return Dm == 1 ? (Element&) *li : Dm == 2 ? (Element&) *qu : (Element&) *he; }
static std::vector<double> shape(const double* p) { std::vector<double> r; if (Dm == 1) { auto v = li->formFunc(p[0]); for (int i = 0; i < 2; i++) r.push_back(v[i]); }
  else if (Dm == 2) { auto v = qu->formFunc(p[0], p[1]); for (int i = 0; i < 4; i++) r.push_back(v[i]); } else { auto v = he->formFunc(p[0], p[1], p[2]); for (int i = 0; i < 8; i++) r.push_back(v[i]); } return r; }
static std::vector<double> shapeN(int np) { std::vector<double> r; if (Dm == 1) { auto v = li->formFunc((uint16) np); for (int i = 0; i < 2; i++) r.push_back(v[i]); }
  else if (Dm == 2) { auto v = qu->formFunc((uint16) np); for (int i = 0; i < 4; i++) r.push_back(v[i]); } else { auto v = he->formFunc((uint16) np); for (int i = 0; i < 8; i++) r.push_back(v[i]); } return r; }
static double deriv(const double* p, int n, int d) { return Dm == 1 ? li->formFuncDeriv(p[0])[n][d] : Dm == 2 ? qu->formFuncDeriv(p[0], p[1])[n][d] : he->formFuncDeriv(p[0], p[1], p[2])[n][d]; }
static int nP() { return Dm == 1 ? li->nOfIntPoints() : Dm == 2 ? qu->nOfIntPoints() : he->nOfIntPoints(); }
static double w(int q) { return Dm == 1 ? li->intWeight(q) : Dm == 2 ? qu->intWeight(q) : he->intWeight(q); }
static void rst(int q, double* p) { if (Dm == 1) li->np2rst(q, p); else if (Dm == 2) qu->np2rst(q, p); else he->np2rst(q, p); }
static double B(int q, int n, int j) { return Dm == 2 ? qu->NiXj[q][n][j] : he->NiXj[q][n][j]; }
void runScript(const Script& sc) {
  for (auto& line : sc) {
    Toks t = toks(line); const std::string& c = t[0];
    if (c == "elem") {
      st = new FEStorage; Dm = t[1] == "LINE" ? 1 : t[1] == "QUAD" ? 2 : 3; NN = 1 << Dm; std::vector<std::string> ps;
      // the nodes are numbered backwards in the storage
      for (int i = 0; i < NN; i++) st->addNode(new Node);
      Element* e = Dm == 1 ? (Element*) (li = new Li) : Dm == 2 ? (Element*) (qu = new Qu) : (Element*) (he = new He);
      for (int i = 0; i < NN; i++) { std::vector<int> p; e->getNodeNumber(i) = NN - i; for (int j = 0; j < 3; j++) { p.push_back(I(t[2 + 3 * i + j])); st->getNode(NN - i).pos[j] = p[j]; } ps.push_back(jarr(p)); }
      st->addElement(e); J("elem").str("k", t[1]).raw("pos", jarrs(ps)).i("nn", e->getNNodes()).i("dim", e->getDim()).out();
    } else if (c == "order") { elem().setIntegrationOrder(I(t[1])); J("order").i("o", I(t[1])).i("got", elem().getIntegrationOrder()).out();
    } else if (c == "move") { std::vector<int> p; for (int j = 0; j < 3; j++) { p.push_back(I(t[2 + j])); st->getNode(NN - I(t[1]) + 1).pos[j] = p[j]; } J("move").i("n", I(t[1])).raw("p", jarr(p)).out();
    } else if (c == "make") { elem().pre(); snap.clear(); for (int i = 0; i < NN; i++) { Node& n = st->getNode(NN - i); snap.push_back({(int) n.pos[0], (int) n.pos[1], (int) n.pos[2]}); } J("make").i("ord", elem().getIntegrationOrder()).out();
    } else if (c == "shape") { double p[3]; std::vector<int> pi, N; std::vector<std::string> ds; for (int d = 0; d < Dm; d++) { pi.push_back(I(t[1 + d])); p[d] = pi[d] / 4.0; }
      std::vector<double> s = shape(p); for (double v : s) N.push_back(exact(v * pow(8, Dm)));
      for (int n = 0; n < NN; n++) { std::vector<int> r; for (int d = 0; d < Dm; d++) r.push_back(exact(deriv(p, n, d) * pow(2, Dm) * pow(4, Dm - 1))); ds.push_back(jarr(r)); }
      J("shape").raw("p", jarr(pi)).raw("N", jarr(N)).raw("D", jarrs(ds)).out();
    } else if (c == "read") {
      double a[3] = {atof(t[1].c_str()), atof(t[2].c_str()), atof(t[3].c_str())}; int np = nP(); double S1 = pow(2, Dm * Dm) * pow(3, Dm), S2 = S1 * pow(2, Dm); bool same = true; std::vector<double> N(NN), X(3); std::vector<std::vector<double>> G(NN, std::vector<double>(3));
      double vol = Dm == 1 ? li->volume() : Dm == 2 ? qu->volume() : he->volume(); std::vector<std::string> gs, ms;
      for (int q = 0; q < np; q++) {
        double p[3] = {0, 0, 0}; rst(q, p); std::vector<double> s = shapeN(q); same = same && near(s, shape(p));
        std::vector<double> g(Dm);
        for (int n = 0; n < NN; n++) { N[n] += w(q) * s[n]; double f = 0; for (int j = 0; j < Dm; j++) f += a[j] * snap[n][j];
          for (int j = 0; j < Dm; j++) { X[j] += w(q) * s[n] * snap[n][j]; if (Dm > 1) { G[n][j] += w(q) * B(q, n, j); g[j] += B(q, n, j) * f; } } }
        std::vector<int> gi; for (double v : g) gi.push_back(ex(v)); if (Dm > 1) gs.push_back(jarr(gi));
      }
      int o = np == (1 << Dm) ? 2 : np == 1 ? 1 : 3, m = 2 * o; 
      for (int k = 0; k < pow(m, Dm); k++) { int e[3] = {k % m, (k / m) % m, k / m / m}; double v = 0; for (int q = 0; q < np; q++) { double p[3] = {0, 0, 0}; rst(q, p); double r = w(q); for (int d = 0; d < Dm; d++) r *= pow(p[d], e[d]); v += r; }
        std::vector<int> r(e, e + Dm); r.push_back(ex(v * pow(2, Dm * Dm - Dm) * pow(15, Dm))); ms.push_back(jarr(r)); }
      std::vector<int> Ni, Xi; for (double v : N) Ni.push_back(ex(v * S2)); for (int j = 0; j < Dm; j++) Xi.push_back(ex(X[j] * S2));
      std::vector<std::string> ds; for (int n = 0; n < NN; n++) { std::vector<int> r; for (int j = 0; j < Dm; j++) r.push_back(ex(G[n][j] * S1)); ds.push_back(jarr(r)); }
      J("read").i("np", np).b("same", same).i("vol", ex(vol * S1)).raw("N", jarr(Ni)).raw("X", jarr(Xi)).raw("D", jarrs(ds)).raw("a", jarr(std::vector<int>({I(t[1]), I(t[2]), I(t[3])}))).raw("g", jarrs(gs)).raw("mono", jarrs(ms)).out();
    } else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
