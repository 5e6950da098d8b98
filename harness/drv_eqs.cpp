// Driver: the equation solvers on symmetric matrices with integer entries.
#include "common.h"
#include "math/EquationSolver.h"
#include "math/SparseMatrix.h"
using namespace nla3d; using namespace nla3d::math;
struct Opened : PARDISO_equationSolver {};
// u: units.  The matrix holds u_i u_j a_ij (u_i: powers of two), right hand sides u_i b_i, solutions x_i / u_i
struct M { SparseSymMatrix* a; int n; std::vector<double> u; };
static std::map<int, M> ms; static std::map<int, EquationSolver*> ss; static std::map<int, std::string> kinds;
static std::vector<double> rhs(const Toks& t, size_t k, int n) { std::vector<double> b; for (int i = 0; i < n; i++) b.push_back(D(t[k + i])); return b; }
static void evX(const char* e, int s, int m, const std::vector<double>& b0, std::vector<double>& x, double S) {
  std::vector<int> bi, xi; for (double v : b0) bi.push_back(exact(v)); 
  for (size_t i = 0; i < x.size(); i++) xi.push_back(fixp(x[i] * ms[m].u[i], S));
  // the matrix is data of the caller: whatever the solver does, it stays what it was
  std::vector<std::string> rows; for (int i = 1; i <= ms[m].n; i++) { std::vector<int> r; for (int j = 1; j <= ms[m].n; j++) r.push_back(exact(ms[m].a->value(i, j) / (ms[m].u[i - 1] * ms[m].u[j - 1]))); rows.push_back(jarr(r)); }
  J(e).i("s", s).i("m", m).raw("b", jarr(bi)).raw("x", jarr(xi)).i("S", (int) S).raw("A", jarrs(rows)).out();
}
void runScript(const Script& sc) {
  double S = 10000; std::vector<double> units;
  for (auto& l : sc) { Toks t = toks(l); const std::string& c = t[0];
    if (c == "scale") S = D(t[1]);
    else if (c == "units") { units.clear(); for (size_t k = 1; k < t.size(); k++) units.push_back(ldexp(1.0, I(t[k]))); }
    else if (c == "mat") { // mat id n maxrow i j v ...
      M m; m.n = I(t[2]); m.u = units.empty() ? std::vector<double>(m.n, 1.0) : units; if ((int) m.u.size() != m.n) abort(); m.a = new SparseSymMatrix(m.n, I(t[3])); std::vector<std::string> e;
      for (size_t k = 4; k + 2 < t.size(); k += 3) m.a->addEntry(I(t[k]), I(t[k + 1])); m.a->compress();
      for (size_t k = 4; k + 2 < t.size(); k += 3) { m.a->addValue(I(t[k]), I(t[k + 1]), D(t[k + 2]) * m.u[I(t[k]) - 1] * m.u[I(t[k + 1]) - 1]); e.push_back("[" + t[k] + "," + t[k + 1] + "," + t[k + 2] + "]"); }
      ms[I(t[1])] = m; J("mat").i("m", I(t[1])).i("n", m.n).raw("a", jarrs(e)).out(); }
    else if (c == "vals") { // other values on the same pattern
      M& m = ms[I(t[1])]; std::vector<std::string> e; m.a->zero(); for (size_t k = 2; k + 2 < t.size(); k += 3) { m.a->addValue(I(t[k]), I(t[k + 1]), D(t[k + 2]) * m.u[I(t[k]) - 1] * m.u[I(t[k + 1]) - 1]); e.push_back("[" + t[k] + "," + t[k + 1] + "," + t[k + 2] + "]"); }
      J("mat").i("m", I(t[1])).i("n", m.n).raw("a", jarrs(e)).out(); }
    else if (c == "solver") { int s = I(t[1]); ss[s] = t[2] == "gauss" ? (EquationSolver*) new GaussDenseEquationSolver : t[2] == "pardiso" ? (EquationSolver*) new PARDISO_equationSolver : defaultEquationSolver; ss[s]->setSymmetric(true); ss[s]->setPositive(t[3] == "1"); kinds[s] = t[2]; J("solver").i("s", s).str("k", t[2]).b("pos", t[3] == "1").out(); }
    else if (c == "drop") { delete ss[I(t[1])]; ss.erase(I(t[1])); J("drop").i("s", I(t[1])).out(); }
    else if (c == "fact") { ss[I(t[1])]->factorizeEquations(ms[I(t[2])].a); J("fact").i("s", I(t[1])).i("m", I(t[2])).out(); }
    else if (c == "sub" || c == "solve") { int s = I(t[1]), m = I(t[2]), n = ms[m].n; std::vector<double> b = rhs(t, 3, n), b0 = b, x(n, 1.0e30); for (int i = 0; i < n; i++) b[i] *= ms[m].u[i];
      if (c == "sub") ss[s]->substituteEquations(ms[m].a, b.data(), x.data()); else ss[s]->solveEquations(ms[m].a, b.data(), x.data()); evX(c.c_str(), s, m, b0, x, S); }
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
