// Driver: DofCollection and the DoF labels.
#include "common.h"
#include "Dof.h"
using namespace nla3d;
static DofCollection dc;
static std::string nm(Dof::dofType t) { return Dof::dofTypeLabels[t]; }
static void dump() {
  std::vector<std::string> v, u; for (auto t : dc.getUniqueDofTypes()) u.push_back(nm(t));
  for (uint32 e = 1; e <= dc.getNumberOfEntities(); e++) {
    std::vector<std::string> l, s; auto p = dc.getEntityDofs(e);
    if (dc.getNumberOfEntities() > 200 && (p.first == p.second || dc.getNumberOfUsedDofs() > 5000 && e % 8192 != 5) && e != 1 && e != dc.getNumberOfEntities() && e % 32768 > 1) continue;   // of big tables what is there
    for (auto it = p.first; it != p.second; ++it) l.push_back("[\"" + nm(it->type) + "\"," + std::to_string(it->eqNumber) + "," + (it->isConstrained ? "1]" : "0]"));
    for (uint16 k = 0; k < Dof::numberOfDofTypes; k++) { Dof::dofType t = (Dof::dofType) k; Dof* q = dc.getDof(e, t);
      s.push_back("[\"" + nm(t) + "\"," + (dc.isDofUsed(e, t) ? "1" : "0") + "," + (q ? "1" : "0") + "," + std::to_string(q ? q->eqNumber : 0) + "," + (q && q->isConstrained ? "1" : "0") + "]"); }
    v.push_back("{\"i\":" + std::to_string(e) + ",\"l\":" + jarrs(l) + ",\"s\":" + jarrs(s) + "}");
  }
  J("dump").i("n", dc.getNumberOfEntities()).i("cnt", dc.getNumberOfUsedDofs()).raw("u", jstrs(u)).raw("v", jarrs(v)).out();
}
void runScript(const Script& sc) {
  for (auto& line : sc) {
    Toks t = toks(line); std::string c = t[0];
    if (c == "create") { dc.initDofTable(I(t[1])); J("create").i("k", I(t[1])).out(); }
    else if (c == "clear") { dc.clearDofTable(); J("clear").out(); }
    else if (c == "add") {
      std::vector<Dof::dofType> q; std::vector<std::string> s; for (size_t k = 2; k < t.size(); k++) { q.push_back(Dof::label2dofType(t[k])); s.push_back(t[k]); }
      uint32 n = I(t[1]);
      switch (q.size()) { case 1: dc.addDof(n, {q[0]}); break; case 2: dc.addDof(n, {q[0], q[1]}); break; case 3: dc.addDof(n, {q[0], q[1], q[2]}); break;
        case 4: dc.addDof(n, {q[0], q[1], q[2], q[3]}); break; default: abort(); }
      J("add").i("n", n).raw("t", jstrs(s)).out();
    } else if (c == "fill") {
      std::vector<Dof::dofType> q; std::vector<std::string> s; for (size_t k = 1; k < t.size(); k++) { q.push_back(Dof::label2dofType(t[k])); s.push_back(t[k]); }
      for (uint32 e = 1; e <= dc.getNumberOfEntities(); e++) dc.addDof(e, {q[0], q.back()});
      J("fill").raw("t", jstrs(s)).out();
    } else if (c == "mark") { Dof* p = dc.getDof(I(t[1]), Dof::label2dofType(t[2])); p->eqNumber = I(t[3]); p->isConstrained = I(t[4]) != 0;
      J("mark").i("n", I(t[1])).str("t", t[2]).i("q", I(t[3])).i("c", I(t[4])).out();
    } else if (c == "dump") dump();
    else if (c == "labels") { std::vector<std::string> l, b; for (uint16 k = 0; k < Dof::numberOfDofTypes; k++) { l.push_back(Dof::dofType2label((Dof::dofType) k)); b.push_back(nm(Dof::label2dofType(l.back()))); }
      J("labels").i("n", Dof::numberOfDofTypes).raw("l", jstrs(l)).raw("b", jstrs(b)).out(); }
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
