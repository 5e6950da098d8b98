// Driver: the VTK post-processor on scripted models; the files it writes are read back by a small reader of
// the legacy VTK format (tokens, any layout) and reported as they are.
#include "common.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "VtkProcessor.h"
#include "elements/element.h"
#include <dirent.h>
using namespace nla3d; using namespace nla3d::math;

static FEStorage* st; static std::string dir; static std::map<int, VtkProcessor*> procs; static bool inSolve = false;
static const std::vector<std::pair<std::string, Dof::dofType>> DT = {{"UX", Dof::UX}, {"UY", Dof::UY}, {"UZ", Dof::UZ}, {"ROTX", Dof::ROTX}, {"ROTY", Dof::ROTY}, {"ROTZ", Dof::ROTZ}, {"HYDRO_PRESSURE", Dof::HYDRO_PRESSURE}, {"TEMP", Dof::TEMP}};
static Dof::dofType dofOf(const std::string& s) { for (auto& d : DT) if (d.first == s) return d.second; abort(); }
typedef std::map<std::pair<char, int>, std::vector<double>> Res;
struct VBase { Res res; std::vector<Dof::dofType> dofs, edofs; virtual ~VBase() {} };
static std::vector<VBase*> vb; static std::vector<Element*> ve;
template <class B> struct VEl : public B, public VBase {
  VEl(int t) { this->type = (ElementType) t; }
  void pre() override { for (uint16 i = 0; i < this->getNNodes(); i++) for (auto d : dofs) this->storage->addNodeDof(this->nodes[i], {d}); for (auto d : edofs) this->storage->addElementDof(this->elNum, {d}); }
  void buildK() override {} 
  void update() override {}
  bool getScalar(double* s, scalarQuery q, uint16 gp, const double scale) override { auto i = res.find({'S', (int) q}); if (i == res.end()) return false; *s += i->second[0] * scale; return true; }
  bool getVector(Vec<3>* v, vectorQuery q, uint16 gp, const double scale) override { auto i = res.find({'V', (int) q}); if (i == res.end()) return false; for (int k = 0; k < 3; k++) (*v)[k] += i->second[k] * scale; return true; }
  bool getTensor(MatSym<3>* m, tensorQuery q, uint16 gp, const double scale) override { auto i = res.find({'T', (int) q}); if (i == res.end()) return false; int ix[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}}; for (int k = 0; k < 6; k++) m->comp(ix[k][0], ix[k][1]) += i->second[k] * scale; return true; }
};
template <class B> static Element* mk(int t, VBase*& b) { auto e = new VEl<B>(t); b = e; return e; }
static Element* make(const std::string& s, int t, VBase*& b) {
  if (s == "VERTEX") return mk<ElementVERTEX>(t, b); if (s == "TWIN_VERTEX") return mk<ElementTWIN_VERTEX>(t, b); if (s == "LINE") return mk<ElementLINE>(t, b);
  if (s == "TRIANGLE") return mk<ElementTRIANGLE>(t, b); if (s == "QUAD") return mk<ElementQUAD>(t, b); if (s == "TETRA") return mk<ElementTETRA>(t, b);
  if (s == "HEXAHEDRON") return mk<ElementHEXAHEDRON>(t, b); if (s == "WEDGE") return mk<ElementWEDGE>(t, b); abort();
}

// ---- reader of legacy VTK files ------------------------------------------------------------------------
static std::string readVtk(const std::string& path, const std::string& name) {
  std::ifstream f(path); std::string l1, l2; std::getline(f, l1); std::getline(f, l2); bool ok = l1.compare(0, 14, "# vtk DataFile") == 0;
  std::vector<std::string> t; std::string x; while (f >> x) t.push_back(x);
  size_t p = 0; auto tok = [&]() { if (p < t.size()) return t[p++]; ok = false; return std::string(); };
  auto num = [&](double sc) { std::string s = tok(); char* e; double v = strtod(s.c_str(), &e); if (s.empty() || *e) { ok = false; return SENT; } return exact(v * sc, 1e-9); };
  if (tok() != "ASCII" || tok() != "DATASET" || tok() != "UNSTRUCTURED_GRID") ok = false;
  std::vector<std::string> pts, cells, fields; std::vector<int> types; std::string where = "-"; long n = 0, np = -1, nc = -1;
  auto rows = [&](long k, int w) { std::vector<std::string> r; for (long i = 0; i < k && ok; i++) { std::vector<int> v; for (int j = 0; j < w; j++) v.push_back(num(4)); r.push_back(jarr(v)); } return jarrs(r); };
  while (ok && p < t.size()) { std::string c = tok();
    if (c == "POINTS") { np = num(1); tok(); if (!pts.empty() || np < 0) ok = false; for (long i = 0; i < np && ok; i++) { std::vector<int> v; for (int j = 0; j < 3; j++) v.push_back(num(4)); pts.push_back(jarr(v)); } }
    else if (c == "CELLS") { nc = num(1); long size = num(1), s = 0; for (long i = 0; i < nc && ok; i++) { int k = num(1); s += k + 1; if (k < 0 || s > size) { ok = false; break; } std::vector<int> v; for (int j = 0; j < k; j++) v.push_back(num(1)); cells.push_back(jarr(v)); } if (s != size) ok = false; }
    else if (c == "CELL_TYPES") { long k = num(1); if (k != nc) ok = false; for (long i = 0; i < k && ok; i++) types.push_back(num(1)); }
    else if (c == "POINT_DATA") { where = "P"; n = num(1); if (n != np) ok = false; }
    else if (c == "CELL_DATA") { where = "C"; n = num(1); if (n != nc) ok = false; }
    else if (c == "SCALARS") { std::string nm = tok(); tok(); std::string w = tok(); int k = 1; if (w != "LOOKUP_TABLE") { k = atoi(w.c_str()); if (tok() != "LOOKUP_TABLE") ok = false; } tok(); fields.push_back("[\"" + where + "\",\"SCALARS\"," + J::esc(nm) + "," + rows(n, k) + "]"); }
    else if (c == "VECTORS") { std::string nm = tok(); tok(); fields.push_back("[\"" + where + "\",\"VECTORS\"," + J::esc(nm) + "," + rows(n, 3) + "]"); }
    else ok = false;
  }
  J j("f"); j.str("name", name).b("ok", ok).raw("pts", jarrs(pts)).raw("cells", jarrs(cells)).raw("types", jarr(types)).raw("fields", jarrs(fields)); return j.s + "}";
}
static std::string files() {  // everything written since the last look
  std::set<std::string> ns; DIR* d = opendir(dir.c_str()); while (auto* e = readdir(d)) if (e->d_name[0] != '.') ns.insert(e->d_name); closedir(d);
  std::vector<std::string> r; for (auto& n : ns) { r.push_back(readVtk(dir + "/" + n, n)); unlink((dir + "/" + n).c_str()); } return jarrs(r);
}
static void key(const char* e, const Toks& t) { J(e).i("n", I(t[1])).str("d", t[2]).i("v", I(t[3])).out(); }

void runScript(const Script& sc) {
  char tmp[] = "vtkXXXXXX"; if (!mkdtemp(tmp)) abort(); dir = tmp; st = new FEStorage;
  for (auto& l : sc) { Toks t = toks(l); const std::string& c = t[0];
    if (c == "nodes") { int n = (t.size() - 1) / 3; st->createNodes(n); std::vector<std::string> ps; for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < 3; j++) { p.push_back(I(t[1 + 3 * i + j])); st->getNode(i + 1).pos[j] = p[j] / 4.0; } ps.push_back(jarr(p)); } J("nodes").raw("p", jarrs(ps)).out(); }
    else if (c == "el") { // el SHAPE type nodes... ; dofs... ; edofs...
      VBase* b; Element* e = make(t[1], I(t[2]), b); std::vector<int> n; size_t k = 3; for (; t[k] != ";"; k++) { e->getNodeNumber(n.size()) = I(t[k]); n.push_back(I(t[k])); }
      for (k++; t[k] != ";"; k++) b->dofs.push_back(dofOf(t[k])); for (k++; k < t.size(); k++) b->edofs.push_back(dofOf(t[k]));
      st->addElement(e); vb.push_back(b); ve.push_back(e); J("el").str("s", t[1]).i("t", I(t[2])).raw("n", jarr(n)).out(); }
    else if (c == "init") { st->initDofs(); for (size_t k = 1; k + 1 < t.size(); k += 2) st->setConstrainedNodeDof(I(t[k]), dofOf(t[k + 1])); st->assignEquationNumbers(); st->initSolutionData();
      std::vector<std::string> a, b; for (uint32 n = 1; n <= st->nNodes(); n++) for (auto& d : DT) if (st->isNodeDofUsed(n, d.second)) a.push_back("[" + std::to_string(n) + ",\"" + d.first + "\"]");
      for (uint32 n = 1; n <= st->nElements(); n++) for (auto& d : DT) if (st->isElementDofUsed(n, d.second)) b.push_back("[" + std::to_string(n) + ",\"" + d.first + "\"]");
      J("init").raw("u", jarrs(a)).raw("eu", jarrs(b)).out(); }
    else if (c == "u") { (*st->getU())[st->getNodeDofEqNumber(I(t[1]), dofOf(t[2])) - 1] = I(t[3]) / 4.0; key("u", t); }
    else if (c == "eu") { (*st->getU())[st->getElementDofEqNumber(I(t[1]), dofOf(t[2])) - 1] = I(t[3]) / 4.0; key("eu", t); }
    else if (c == "r") { (*st->getR())[st->getNodeDofEqNumber(I(t[1]), dofOf(t[2])) - 1] = I(t[3]) / 4.0; key("r", t); }
    else if (c == "res") { std::vector<double> v; std::vector<int> w; for (size_t k = 4; k < t.size(); k++) { w.push_back(I(t[k])); v.push_back(I(t[k]) / 4.0); } vb[I(t[1]) - 1]->res[{t[2][0], I(t[3])}] = v; J("res").i("n", I(t[1])).str("k", t[2]).i("q", I(t[3])).raw("v", jarr(w)).out(); }
    else if (c == "proc") { procs[I(t[1])] = new VtkProcessor(st, dir + "/" + t[2]); J("proc").i("i", I(t[1])).str("name", t[2]).out(); }
    else if (c == "all") { if (t[2] == "2") procs[I(t[1])]->writeAllResults(); else procs[I(t[1])]->writeAllResults(t[2] == "1"); J("all").i("i", I(t[1])).b("b", t[2] != "0").out(); }
    else if (c == "reg") { std::vector<int> q; for (size_t k = 3; k < t.size(); k++) q.push_back(I(t[k])); auto* p = procs[I(t[1])]; bool ok = false;
      #define REG(Q) ok = q.size() == 1 ? p->registerResults({(Q) q[0]}) : q.size() == 2 ? p->registerResults({(Q) q[0], (Q) q[1]}) : p->registerResults({(Q) q[0], (Q) q[1], (Q) q[2]})
      if (t[2] == "S") REG(scalarQuery); else if (t[2] == "V") REG(vectorQuery); else REG(tensorQuery);
      J("reg").i("i", I(t[1])).str("k", t[2]).raw("q", jarr(q)).b("ok", ok).out(); }
    else if (c == "pre") { procs[I(t[1])]->pre(); J("pre").i("i", I(t[1])).raw("f", files()).out(); }
    else if (c == "process") { procs[I(t[1])]->process(I(t[2])); J("process").i("i", I(t[1])).i("k", I(t[2])).raw("f", files()).out(); }
    else if (c == "post") { procs[I(t[1])]->post(I(t[2])); J("post").i("i", I(t[1])).raw("f", files()).out(); }
    else abort();
  }
  files(); rmdir(dir.c_str());
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
