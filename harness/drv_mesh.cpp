// Driver: mesh files and MeshData.  Coordinates, values and coefficients are integers in units of 1/8.
#include "common.h"
#include "FEReaders.h"
using namespace nla3d; using namespace nla3d::math;
static MeshData* md = nullptr;
static const double U = 8.0;
static std::string text;
static const char* ATTR[6] = {"TYPE", "MAT", "REAL", "SECT", "CS", "SHAPE"};
static std::string dn(Dof::dofType t) { return t == Dof::UNDEFINED ? "UNDEFINED" : std::string(Dof::dofTypeLabels[t]); }
static std::string bc(uint32 n, Dof::dofType d, double v) { return "[" + std::to_string(n) + "," + J::esc(dn(d)) + "," + std::to_string(exact(v * U)) + "]"; }
static void obs(J& j) {
  std::vector<std::string> a; for (size_t i = 0; i < md->nodesNumbers.size(); i++) { std::vector<int> p; for (int k = 0; k < 3; k++) p.push_back(exact(md->nodesPos[i][k] * U)); a.push_back("[" + std::to_string(md->nodesNumbers[i]) + "," + jarr(p) + "]"); }
  if (md->nodesPos.size() != md->nodesNumbers.size()) a.push_back("\"sizes\"");
  j.raw("nodes", jarrs(a)); a.clear();
  std::vector<std::set<uint32>> seen(6);
  for (size_t i = 0; i < md->cellNumbers.size(); i++) { std::vector<int> p; for (int k = 0; k < 6; k++) { auto& q = md->cellIntData[ATTR[k]]; p.push_back(q.empty() ? 0 : q.size() > i ? (int) q[i] : SENT); if (q.size() > i) seen[k].insert(q[i]); }
    a.push_back("[" + std::to_string(md->cellNumbers[i]) + "," + jarr(p) + "," + jarr(md->cellNodes[i]) + "]"); }
  if (md->cellNodes.size() != md->cellNumbers.size()) a.push_back("\"sizes\"");
  j.raw("cells", jarrs(a)); a.clear();
  for (auto& b : md->fixBcs) a.push_back(bc(b.node, b.node_dof, b.value)); j.raw("fixes", jarrs(a)); a.clear();
  for (auto& b : md->loadBcs) a.push_back(bc(b.node, b.node_dof, b.value)); j.raw("loads", jarrs(a)); a.clear();
  for (auto* m : md->mpcs) { std::vector<std::string> t; for (auto& q : m->eq) t.push_back(bc(q.node, q.node_dof, q.coef)); a.push_back("[" + std::to_string(exact(m->b * U)) + "," + jarrs(t) + "]"); } j.raw("mpcs", jarrs(a)); a.clear();
  for (auto& p : md->feComps) a.push_back("[" + J::esc(p.first == p.second.name ? p.first : p.first + "!" + p.second.name) + "," + (p.second.type == FEComponent::NODES ? "\"NODE\"" : p.second.type == FEComponent::ELEMENTS ? "\"ELEM\"" : "\"?\"") + "," + jarr(p.second.list) + "]");
  j.raw("comps", jarrs(a)); a.clear();
  std::vector<uint32> dg = md->getDegeneratedCells(); for (auto& x : dg) x++; j.raw("deg", jarr(dg));
  bool full = true; for (int k = 0; k < 6; k++) if (md->cellIntData[ATTR[k]].size() != md->cellNumbers.size()) full = false;
  if (full) for (int k = 0; k < 6; k++) for (uint32 v : seen[k]) { auto s = md->getCellsByAttribute(ATTR[k], v); for (auto& x : s) x++; a.push_back("[" + std::to_string(k + 1) + "," + std::to_string(v) + "," + jarr(s) + "]"); }
  j.raw("sel", jarrs(a)); j.out();
}
// one abstract record as JSON value; builds it in the mesh when `put`
static void record(const Toks& t, bool put) {
  const std::string& r = t[0]; std::string v;
  if (r == "node") { v = "[" + t[1] + ",[" + t[2] + "," + t[3] + "," + t[4] + "]]"; if (put) { md->nodesNumbers.push_back(I(t[1])); Vec<3> p; for (int k = 0; k < 3; k++) p[k] = D(t[2 + k]) / U; md->nodesPos.push_back(p); } }
  else if (r == "cell") {            // cell num type mat real sect cs shape N nodes
    std::vector<uint32> n; for (size_t k = 9; k < t.size(); k++) n.push_back(I(t[k])); std::vector<int> a; for (int k = 0; k < 6; k++) a.push_back(I(t[2 + k]));
    v = "[" + t[1] + "," + jarr(a) + "," + jarr(n) + "]"; if (put) { md->cellNumbers.push_back(I(t[1])); md->cellNodes.push_back(n); for (int k = 0; k < 6; k++) md->cellIntData[ATTR[k]].push_back(a[k]); } }
  else if (r == "fix" || r == "load") { v = "[" + t[1] + ",\"" + t[2] + "\"," + t[3] + "]"; if (put) { if (r == "fix") { fixBC b; b.node = I(t[1]); b.node_dof = Dof::label2dofType(t[2]); b.value = D(t[3]) / U; md->fixBcs.push_back(b); } else { loadBC b; b.node = I(t[1]); b.node_dof = Dof::label2dofType(t[2]); b.value = D(t[3]) / U; md->loadBcs.push_back(b); } } }
  else if (r == "mpc") { std::vector<std::string> q; Mpc* m = new Mpc; m->b = D(t[1]) / U; for (size_t k = 2; k + 2 < t.size(); k += 3) { q.push_back("[" + t[k] + ",\"" + t[k + 1] + "\"," + t[k + 2] + "]"); m->eq.push_back(MpcTerm(I(t[k]), Dof::label2dofType(t[k + 1]), D(t[k + 2]) / U)); }
    v = "[" + t[1] + "," + jarrs(q) + "]"; if (put) md->mpcs.push_back(m); }
  else if (r == "comp") { std::vector<uint32> n; for (size_t k = 3; k < t.size(); k++) n.push_back(I(t[k])); v = "[\"" + t[1] + "\",\"" + t[2] + "\"," + jarr(n) + "]";
    if (put) { FEComponent c; c.name = t[1]; c.type = FEComponent::typeFromString(t[2]); for (uint32 x : n) c.list.push_back(x); md->feComps.insert(std::make_pair(c.name, c)); } }
  else abort();
  J(put ? "put" : "rec").str("r", r).raw("v", v).out();
}
void runScript(const Script& sc) {
  md = new MeshData; bool doc = false; std::string eol = "\n"; bool lastEol = true;
  for (auto& line : sc) {
    Toks t = toks(line);
    if (t[0] == "doc") { doc = true; text.clear(); eol = t[1] == "LF" ? "\n" : t[1] == "CR" ? "\r" : "\r\n"; lastEol = t[2] == "1"; J("doc").out(); }
    else if (line.compare(0, 1, "|") == 0) { text += line.substr(1) + eol; }
    else if (t[0] == "read") { std::string f = "mesh_" + std::to_string(getpid()) + ".txt"; if (!lastEol) text.resize(text.size() - eol.size()); { std::ofstream o(f, std::ios::binary); o << text; }
      bool ok = t[1] == "cdb" ? readCdbFile(f, *md) : readNeuFile(f, *md); unlink(f.c_str()); doc = false; J j("read"); j.b("ok", ok); obs(j); }
    else if (t[0] == "missing") { bool ok = t[1] == "cdb" ? readCdbFile("no/such/file", *md) : readNeuFile("no/such/file", *md); J j("missing"); j.b("ok", ok); obs(j); }
    else if (t[0] == "compress") { md->compressNumbers(); J j("compress"); obs(j); }
    else if (t[0] == "dump") { J j("dump"); obs(j); }
    else record(t, !doc);
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
