// Driver: block partitioned symmetric matrices.
#include "common.h"
#include "math/BlockSparseMatrix.h"
using namespace nla3d; using namespace nla3d::math;
struct Any { virtual ~Any() {} virtual Any* on() = 0; virtual void ent(uint32, uint32) = 0; virtual void comp() = 0; virtual bool isc() = 0; virtual void addv(uint32, uint32, double) = 0;
  virtual void zero() = 0; virtual uint32 rows() = 0; virtual void dump(int id) = 0; virtual void show(int id) = 0; };
static std::map<int, Any*> ms;
template <class B> void dumpB(B* x, int id, int nb) {
  x->compress();
  std::vector<std::string> r; bool same = true;
  for (int a = 1; a <= nb; a++) for (int c = a; c <= nb; c++) {
    uint32 nr, nc; std::vector<std::string> rows;
    if (a == c) { nr = x->block(a)->nRows(); nc = x->block(a)->nColumns(); } else { nr = x->block(a, c)->nRows(); nc = x->block(a, c)->nColumns(); same = same && x->block(a, c) == x->block(c, a); }
    for (uint32 i = 1; i <= nr; i++) { std::vector<int> q; for (uint32 j = 1; j <= nc; j++) q.push_back(exact(a == c ? x->block(a)->value(i, j) : x->block(a, c)->value(i, j))); rows.push_back(jarr(q)); }
    r.push_back("{\"a\":" + std::to_string(a) + ",\"c\":" + std::to_string(c) + ",\"nr\":" + std::to_string(nr) + ",\"nc\":" + std::to_string(nc) + ",\"d\":" + jarrs(rows) + "}");
  }
  J("comp").i("m", id).b("c", x->isCompressed()).out();
  J("dump").i("m", id).i("rows", x->nRows()).b("same", same).raw("b", jarrs(r)).out();
}
// the values which are not zero, in block coordinates
template <class B> void showB(B* x, int id, int nb) {
  std::vector<std::string> r;
  for (int a = 1; a <= nb; a++) for (int c = a; c <= nb; c++) {
    BaseSparseMatrix& b = a == c ? (BaseSparseMatrix&) *x->block(a) : (BaseSparseMatrix&) *x->block(a, c);
    for (uint32 i = 1; i <= b.nRows(); i++) for (uint32 k = b.getIofeirArray()[i - 1]; k < b.getIofeirArray()[i]; k++) if (b.getValuesArray()[k - 1] != 0.0)
      r.push_back(jarr(std::vector<long>{a, c, (long) i, (long) b.getColumnsArray()[k - 1], exact(b.getValuesArray()[k - 1])}));
  }
  J("show").i("m", id).i("rows", x->nRows()).raw("q", jarrs(r)).out();
}
template <int n> struct Of : public Any { BlockSparseSymMatrix<n>* x; Of(BlockSparseSymMatrix<n>* p) : x(p) {}
  Any* on() override { return new Of<n>(new BlockSparseSymMatrix<n>(x)); } void ent(uint32 i, uint32 j) override { x->addEntry(i, j); } void comp() override { x->compress(); } bool isc() override { return x->isCompressed(); }
  void addv(uint32 i, uint32 j, double v) override { x->addValue(i, j, v); } void zero() override { x->zero(); } uint32 rows() override { return x->nRows(); } void dump(int id) override { dumpB(x, id, n); } void show(int id) override { showB(x, id, n); } };
void runScript(const Script& sc) {
  for (auto& line : sc) {
    Toks t = toks(line); std::string c = t[0]; int id = t.size() > 1 ? I(t[1]) : 0;
    if (c == "new") { std::vector<long> s; for (size_t k = 2; k < t.size(); k++) s.push_back(I(t[k]));
      std::vector<uint32> z(s.begin(), s.end());
      switch (z.size()) {
        case 1: ms[id] = new Of<1>(new BlockSparseSymMatrix<1>({z[0]})); break;
        case 2: ms[id] = new Of<2>(new BlockSparseSymMatrix<2>({z[0], z[1]})); break;
        case 3: ms[id] = new Of<3>(new BlockSparseSymMatrix<3>({z[0], z[1], z[2]})); break;
        case 4: ms[id] = new Of<4>(new BlockSparseSymMatrix<4>({z[0], z[1], z[2], z[3]})); break;
        case 5: ms[id] = new Of<5>(new BlockSparseSymMatrix<5>({z[0], z[1], z[2], z[3], z[4]})); break;
        default: abort();
      }
      J("new").i("m", id).raw("s", jarr(s)).out();
    } else if (c == "on") { ms[id] = ms[I(t[2])]->on(); J("on").i("m", id).i("m2", I(t[2])).out();
    } else if (c == "ent") { ms[id]->ent(I(t[2]), I(t[3])); J("ent").i("m", id).i("i", I(t[2])).i("j", I(t[3])).out();
    } else if (c == "comp") { ms[id]->comp(); J("comp").i("m", id).b("c", ms[id]->isc()).out();
    } else if (c == "addv") { ms[id]->addv(I(t[2]), I(t[3]), I(t[4])); J("addv").i("m", id).i("i", I(t[2])).i("j", I(t[3])).i("v", I(t[4])).out();
    } else if (c == "zero") { ms[id]->zero(); J("zero").i("m", id).out();
    } else if (c == "rows") { J("rows").i("m", id).i("v", ms[id]->rows()).out();
    } else if (c == "try") { fflush(0); pid_t p = fork(); if (!p) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); ms[id]->addv(I(t[2]), I(t[3]), 1.0); _exit(0); }
      int s; waitpid(p, &s, 0); J("try").i("m", id).i("i", I(t[2])).i("j", I(t[3])).b("ok", WIFEXITED(s) && WEXITSTATUS(s) == 0).out();
    } else if (c == "show") { ms[id]->show(id);
    } else if (c == "dumpall") { for (auto& kv : ms) kv.second->dump(kv.first);
    } else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
