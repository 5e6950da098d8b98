// Driver: sparse matrices through their public interface.
#include "common.h"
#include "math/SparseMatrix.h"
namespace nla3d { namespace math {
void matBVprod(SparseSymMatrix &B, const dVec &V, const double coef, dVec &R);
void matBVprod(SparseMatrix &B, const dVec &V, const double coef, dVec &R);
void matBTVprod(SparseMatrix &B, const dVec &V, const double coef, dVec &R);
}}
using namespace nla3d; using namespace nla3d::math;

struct M { bool sym; SparseMatrix* g = nullptr; SparseSymMatrix* s = nullptr;
  BaseSparseMatrix& b() { return sym ? (BaseSparseMatrix&) *s : (BaseSparseMatrix&) *g; }
  double value(uint32 i, uint32 j) { return sym ? s->value(i, j) : g->value(i, j); }
  double& at(uint32 i, uint32 j) { return sym ? (*s)(i, j) : (*g)(i, j); }
  void ent(uint32 i, uint32 j) { if (sym) s->addEntry(i, j); else g->addEntry(i, j); }
  void addv(uint32 i, uint32 j, double v) { if (sym) s->addValue(i, j, v); else g->addValue(i, j, v); }
};
static std::map<int, M> ms;

static void dump(int id) {
  M& m = ms[id]; BaseSparseMatrix& b = m.b();
  std::vector<std::string> rows;
  for (uint32 i = 1; i <= b.nRows(); i++) { std::vector<int> r; for (uint32 j = 1; j <= b.nColumns(); j++) r.push_back(exact(m.value(i, j))); rows.push_back(jarr(r)); }
  std::vector<int> io(b.getIofeirArray(), b.getIofeirArray() + b.nRows() + 1);
  std::vector<int> col, val;
  for (uint32 k = 0; k < b.nValues(); k++) { col.push_back(b.getColumnsArray()[k]); val.push_back(exact(b.getValuesArray()[k])); }
  J("dump").i("m", id).i("nr", b.nRows()).i("nc", b.nColumns()).i("nv", b.nValues()).raw("d", jarrs(rows))
    .raw("io", jarr(io)).raw("col", jarr(col)).raw("val", jarr(val)).out();
}

void runScript(const Script& sc) {
  for (auto& line : sc) {
    Toks t = toks(line); std::string c = t[0]; int id = I(t[1]);
    if (c == "new") {
      M m; m.sym = t[2] == "sym";
      if (m.sym) m.s = new SparseSymMatrix(I(t[3]), I(t[5])); else m.g = new SparseMatrix(I(t[3]), I(t[4]), I(t[5]));
      ms[id] = m; J("new").i("m", id).str("k", t[2]).i("nr", I(t[3])).i("nc", I(t[4])).i("max", I(t[5])).out();
    } else if (c == "reinit") {
      M& m = ms[id]; if (m.sym) m.s->reinit(I(t[2]), I(t[4])); else m.g->reinit(I(t[2]), I(t[3]), I(t[4]));
      J("reinit").i("m", id).i("nr", I(t[2])).i("nc", I(t[3])).i("max", I(t[4])).out();
    } else if (c == "share") {
      M m; m.sym = t[2] == "sym"; auto si = ms[I(t[3])].b().getSparsityInfo();
      if (m.sym) m.s = new SparseSymMatrix(si); else m.g = new SparseMatrix(si);
      ms[id] = m; J("share").i("m", id).str("k", t[2]).i("m2", I(t[3])).out();
    } else if (c == "share0") {   // default constructed, then attached
      M m; m.sym = t[2] == "sym"; auto si = ms[I(t[3])].b().getSparsityInfo();
      if (m.sym) { m.s = new SparseSymMatrix; m.s->setSparsityInfo(si); } else { m.g = new SparseMatrix; m.g->setSparsityInfo(si); }
      ms[id] = m; J("share").i("m", id).str("k", t[2]).i("m2", I(t[3])).out();
    } else if (c == "setsp") {
      ms[id].b().setSparsityInfo(ms[I(t[2])].b().getSparsityInfo());
      J("setsp").i("m", id).i("m2", I(t[2])).out();
    } else if (c == "build") {    // build m kind nr nc (i j v)*
      M m; m.sym = t[2] == "sym"; if (m.sym) m.s = new SparseSymMatrix; else m.g = new SparseMatrix;
      if (ms.count(id) && ms[id].sym == m.sym) m = ms[id];
      std::vector<SparseEntry> es; std::vector<std::string> q;
      for (size_t k = 5; k + 2 < t.size(); k += 3) {
        SparseEntry e; e.i = I(t[k]); e.j = I(t[k+1]); e.v = I(t[k+2]); es.push_back(e);
        q.push_back(jarr(std::vector<long>{I(t[k]), I(t[k+1]), I(t[k+2])}));
      }
      m.b().reinit(I(t[3]), I(t[4]), es); ms[id] = m;
      J("build").i("m", id).str("k", t[2]).i("nr", I(t[3])).i("nc", I(t[4])).raw("q", jarrs(q)).out();
    } else if (c == "ent") { ms[id].ent(I(t[2]), I(t[3])); J("ent").i("m", id).i("i", I(t[2])).i("j", I(t[3])).out();
    } else if (c == "comp") { ms[id].b().compress(); J("comp").i("m", id).b("c", ms[id].b().isCompressed()).out();
    } else if (c == "comped") { J("comped").i("m", id).b("c", ms[id].b().isCompressed()).out();
    } else if (c == "addv") { ms[id].addv(I(t[2]), I(t[3]), I(t[4])); J("addv").i("m", id).i("i", I(t[2])).i("j", I(t[3])).i("v", I(t[4])).out();
    } else if (c == "set") { ms[id].at(I(t[2]), I(t[3])) = I(t[4]); J("set").i("m", id).i("i", I(t[2])).i("j", I(t[3])).i("v", I(t[4])).out();
    } else if (c == "zero") { ms[id].b().zero(); J("zero").i("m", id).out();
    } else if (c == "get") { J("get").i("m", id).i("i", I(t[2])).i("j", I(t[3])).i("v", exact(ms[id].value(I(t[2]), I(t[3])))).out();
    } else if (c == "dump") { dump(id);
    } else if (c == "dumpall") { for (auto& kv : ms) if (kv.second.b().isCompressed()) { kv.second.b().compress(); J("comp").i("m", kv.first).b("c", true).out(); dump(kv.first); }
    } else if (c == "bv" || c == "btv") {   // bv m coef extra n v...
      int coef = I(t[2]), extra = I(t[3]), n = I(t[4]); M& m = ms[id];
      dVec v(n); std::vector<int> vi; for (int k = 0; k < n; k++) { v[k] = I(t[5+k]); vi.push_back(I(t[5+k])); }
      uint32 rn = (c == "bv" ? m.b().nRows() : m.b().nColumns()) + extra;
      dVec r(rn); std::vector<int> r0, r1; for (uint32 k = 0; k < rn; k++) { r[k] = (int)(k * 7) - 3; r0.push_back((int)(k*7) - 3); }
      if (c == "bv") { if (m.sym) matBVprod(*m.s, v, coef, r); else matBVprod(*m.g, v, coef, r); } else matBTVprod(*m.g, v, coef, r);
      for (uint32 k = 0; k < rn; k++) r1.push_back(exact(r[k]));
      J(c.c_str()).i("m", id).i("coef", coef).raw("v", jarr(vi)).raw("r0", jarr(r0)).raw("r", jarr(r1)).out();
    } else if (c == "sp" || c == "spt") {   // products with vectors given by their nonzeros: sp m coef (i v)*
      M& m = ms[id]; int coef = I(t[2]); dVec v(c == "sp" ? m.b().nColumns() : m.b().nRows()), r(c == "sp" ? m.b().nRows() : m.b().nColumns()); std::vector<std::string> q, o;
      for (size_t k = 3; k + 1 < t.size(); k += 2) { v[I(t[k]) - 1] = I(t[k+1]); q.push_back(jarr(std::vector<long>{I(t[k]), I(t[k+1])})); }
      if (c == "sp") { if (m.sym) matBVprod(*m.s, v, coef, r); else matBVprod(*m.g, v, coef, r); } else matBTVprod(*m.g, v, coef, r);
      for (uint32 k = 0; k < r.size(); k++) if (r[k] != 0) o.push_back(jarr(std::vector<long>{(long) k + 1, exact(r[k])}));
      J(c.c_str()).i("m", id).i("coef", coef).raw("q", jarrs(q)).raw("o", jarrs(o)).i("n", r.size()).i("nv", m.b().nValues()).out();
    } else if (c == "cmp") { J("cmp").i("m", id).i("m2", I(t[2])).b("same", ms[id].b().compare(ms[I(t[2])].b())).out();
    } else if (c == "rt") {       // rt m kind m2 : m := read(write(m2)), followed by other text in the same stream
      std::stringstream ss; ms[I(t[3])].b().writeCoordinateTextFormat(ss); ss << " 42";
      M m; m.sym = t[2] == "sym"; if (m.sym) m.s = new SparseSymMatrix; else m.g = new SparseMatrix;
      m.b().readCoordinateTextFormat(ss); int tail = 0; ss >> tail; ms[id] = m;
      J("rt").i("m", id).i("m2", I(t[3])).i("tail", tail).i("exptail", 42).out();
    } else if (c == "?") {        // ? ent|addv|set m i j [v]
      fflush(0); pid_t p = fork(); int mi = I(t[2]), i = I(t[3]), j = I(t[4]);
      if (p == 0) { int so = g_out; (void) so;
        if (t[1] == "ent") ms[mi].ent(i, j); else if (t[1] == "addv") ms[mi].addv(i, j, 1); else ms[mi].at(i, j) = 1;
        _exit(0); }
      int st = 0; waitpid(p, &st, 0);
      J("try").str("op", t[1]).i("m", mi).i("i", i).i("j", j).b("ok", WIFEXITED(st) && WEXITSTATUS(st) == 0).out();
    } else { J("unknown").str("c", c).out(); }
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
