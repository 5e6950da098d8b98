// Driver: finite element models built through the public interface (scripted elements, multi-point
// constraints, boundary conditions), step by step on FEStorage or through the solvers.
#include "fe_common.h"

static int storN = 0; static size_t nco = 0;  // components added so far
static std::string dofset(const std::set<Dof::dofType>& s) { std::vector<std::string> v; for (auto t : s) v.push_back(nameOf(t)); return jstrs(v); }

void FEDrv::cmd(const Toks& t) {
  const std::string& c = t[0];
  if (c == "fe") {                       // fe S N x y z ... : new storage with N nodes
    st = new FEStorage; els.clear(); mpcs.clear(); rigids.clear(); nco = 0; so = nullptr; S = D(t[1]); int n = I(t[2]);
    std::vector<std::string> ps; std::vector<uint32> nums;
    int k = n / 2;                       // first half by createNodes, second by addNode
    if (k) for (uint32 q : st->createNodes(k)) nums.push_back(q);
    for (int i = k; i < n; i++) { st->addNode(new Node); nums.push_back(st->nNodes()); }
    for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < 3; j++) { st->getNode(i + 1).pos[j] = D(t[3 + 3 * i + j]); p.push_back(I(t[3 + 3 * i + j])); } ps.push_back(jarr(p)); }
    J("fe").i("S", (int) S).i("nn", st->nNodes()).raw("nums", jarr(nums)).raw("pos", jarrs(ps)).out();
  } else if (c == "units") { q = D(t[1]);
  } else if (c == "elem") addElem(t);
  else if (c == "mpc") {                 // mpc b n dof coef ...
    Mpc* m = new Mpc; m->b = D(t[1]); std::vector<std::string> q;
    for (size_t k = 2; k + 2 < t.size(); k += 3) { m->eq.push_back(MpcTerm(I(t[k]), dofOf(t[k + 1]), D(t[k + 2]))); q.push_back("[" + t[k] + ",\"" + t[k + 1] + "\"," + t[k + 2] + "]"); }
    st->addMpc(m); mpcs.push_back(m); J("mpc").raw("t", jarrs(q)).i("b", I(t[1])).out();
  } else if (c == "rigid") {             // rigid master D dofs S slaves
    RigidBodyMpc* r = new RigidBodyMpc; r->storage = st; r->masterNode = I(t[1]); size_t k = 3; std::vector<std::string> ds; std::vector<long> ss;
    for (; t[k] != "S"; k++) { r->dofs.push_back(dofOf(t[k])); ds.push_back(t[k]); }
    for (k++; k < t.size(); k++) { r->slaveNodes.push_back(I(t[k])); ss.push_back(I(t[k])); }
    st->addMpcCollection(r); rigids.push_back(r); J("rigid").i("m", I(t[1])).raw("d", jstrs(ds)).raw("s", jarr(ss)).out();
  } else if (c == "initdofs") {
    st->initDofs(); std::vector<int> pn; for (auto* h : els) pn.push_back(h->d.preN);
    J("initdofs").i("nd", st->nDofs()).raw("t", table()).raw("un", dofset(st->getUniqueNodeDofTypes())).raw("ue", dofset(st->getUniqueElementDofTypes())).raw("pre", jarr(pn)).i("nm", st->nMpc()).out();
  } else if (c == "con") {               // con N|E n dof
    if (t[1] == "N") st->setConstrainedNodeDof(I(t[2]), dofOf(t[3])); else st->setConstrainedElementDof(I(t[2]), dofOf(t[3]));
    J("con").str("k", t[1]).i("n", I(t[2])).str("d", t[3]).i("nc", st->nConstrainedDofs()).out();
  } else if (c == "number") { st->assignEquationNumbers(); evAssign("assign");
  } else if (c == "transient") { st->setTransient(I(t[1]) != 0); J("transient").b("v", st->isTransient()).out();
  } else if (c == "initsol") { st->initSolutionData(); J j("initsol"); j.i("u", st->getU()->size()).i("f", st->getF()->size()).i("r", st->getR()->size()).i("krows", st->getK()->nRows()).raw("U", vec(st->getU())).raw("R", vec(st->getR())).raw("F", vec(st->getF()));
    if (st->isTransient()) j.i("du", st->getDU()->size()).i("ddu", st->getDDU()->size()); j.out();
  } else if (c == "assemble") { st->assembleGlobalEqMatrices(); evAsm();
  } else if (c == "scaleel") {           // scaleel e f : multiply the matrices of element e, as a state dependent element would
    HBase* h = els[I(t[1]) - 1]; double f = D(t[2]);
    for (auto* A : {&h->d.K, &h->d.C, &h->d.M}) for (auto& r : *A) for (auto& v : r) v *= f;
    for (auto& v : h->d.F) v *= f;
    J("scaleel").i("n", I(t[1])).i("f", I(t[2])).out();
  } else if (c == "addr") {              // addr n dof v : external load straight into the storage
    st->addValueR(I(t[1]), dofOf(t[2]), D(t[3])); uint32 q = st->getNodeDofEqNumber(I(t[1]), dofOf(t[2]));
    J("addr").i("n", I(t[1])).str("d", t[2]).i("v", I(t[3])).i("r", exact(st->getReaction(I(t[1]), dofOf(t[2])))).i("r2", exact(st->getReaction(q))).out();
  } else if (c == "setu") {              // setu n dof v : a DoF value, then read back through the getters
    uint32 q = st->getNodeDofEqNumber(I(t[1]), dofOf(t[2])); (*st->getU())[q - 1] = D(t[3]);
    J("setu").i("n", I(t[1])).str("d", t[2]).i("v", fixp(D(t[3]), S)).out();
  } else if (c == "setue") { uint32 q = st->getElementDofEqNumber(I(t[1]), dofOf(t[2])); (*st->getU())[q - 1] = D(t[3]);
    J("setue").i("n", I(t[1])).str("d", t[2]).i("v", fixp(D(t[3]), S)).i("g", fixp(st->getElementDofSolution(I(t[1]), dofOf(t[2])), S)).out();
  } else if (c == "get") evGet("getters");
  else if (c == "delsol") { st->deleteSolutionData(); J("delsol").i("nd", st->nDofs()).i("nc", st->nConstrainedDofs()).i("nu", st->nUnknownDofs()).out();
  } else if (c == "solver") {            // solver lin | nl steps iters crit(1e-6 units) t1 | tr steps t1 alpha delta init
    nl = nullptr; iter = false; full = true;
    if (t[1] == "lin") { so = new LinearFESolver; J("solver").str("k", "lin").out(); }
    else if (t[1] == "nl") {
      auto* s = new NonlinearFESolver; so = s; nl = s; full = false; s->numberOfLoadsteps = I(t[2]); s->numberOfIterations = I(t[3]); s->convergenceCriteria = D(t[4]) * 1e-6; s->timeControl.setEndTime(D(t[5]));
      J("solver").str("k", "nl").i("steps", I(t[2])).i("iters", I(t[3])).i("crit", I(t[4])).i("t1", I(t[5])).out();
      iter = true;
    }
    else if (t[1] == "tr") {              // solver tr steps m t0 alpha8 delta8 init : time step 1/m
      auto* s = new LinearTransientFESolver; so = s; s->numberOfTimesteps = I(t[2]); s->time0 = D(t[4]); s->time1 = D(t[4]) + D(t[2]) / D(t[3]); s->alpha = D(t[5]) / 8; s->delta = D(t[6]) / 8; s->initValue = D(t[7]);
      J("solver").str("k", "tr").i("steps", I(t[2])).i("m", I(t[3])).i("al", I(t[5])).i("de", I(t[6])).i("init", I(t[7])).out();
    }
    so->attachFEStorage(st);
  } else if (c == "eqsolver") {
    EquationSolver* e = nullptr;
#ifdef NLA3D_USE_MKL
    if (t.size() > 1 && t[1] == "pardiso") e = new PARDISO_equationSolver;
#endif
    if (!e) e = new GaussDenseEquationSolver;
    so->attachEquationSolver(e);
  } else if (c == "fix") { double v; if (t[3].compare(0, 3, "PI*") == 0) v = M_PI * D(t[3].substr(3)); else if (t[3] == "AT") v = 2 * atan2(D(t[4]), D(t[5])) * D(t[6]) / D(t[7]); else v = D(t[3]); so->addFix(I(t[1]), dofOf(t[2]), v); J("fix").i("n", I(t[1])).str("d", t[2]).i("v", fixp(v, S)).out();
  } else if (c == "load") { so->addLoad(I(t[1]), dofOf(t[2]), D(t[3]) * q); J("load").i("n", I(t[1])).str("d", t[2]).i("v", I(t[3])).out();
  } else if (c == "rec") { auto* p = new Recorder(st, I(t[1]), t[2] == "1"); uint16 n = so->addPostProcessor(p);
    J("rec").i("id", I(t[1])).b("full", t[2] == "1").i("num", n).i("np", so->getNumberOfPostProcessors()).b("same", &so->getPostProcessor(n - 1) == p).out();
  } else if (c == "react") {             // react file|- N nodes D dofs
    std::string f = t[1] == "-" ? "" : t[1]; ReactionProcessor* p = f.size() ? new ReactionProcessor(st, f) : new ReactionProcessor(st);
    std::vector<std::string> ds; std::vector<long> ns; size_t k = 3; for (; k < t.size() && t[k] != "D"; k++) { p->nodes.push_back(I(t[k])); ns.push_back(I(t[k])); }
    for (k++; k < t.size(); k++) { p->dofs.push_back(dofOf(t[k])); ds.push_back(t[k]); }
    so->addPostProcessor(p); rps.push_back(p); rpFile.push_back(f);
    J("react").i("id", rps.size()).raw("n", jarr(ns)).raw("d", jstrs(ds)).b("file", f.size() > 0).out();
  } else if (c == "solve") {
    J("solve").out(); so->solve(); J j("solved"); if (nl) j.i("tot", nl->timeControl.getTotalNumberOfEquilibriumSteps()).i("conv", nl->timeControl.getNumberOfConvergedSteps()); j.out();
  } else if (c == "mustfail") {          // run the solution in a child: it has to be refused (abnormal end), not reported
    J("solve").out(); fflush(0); pid_t p = fork();
    if (p == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); so->solve(); _exit(0); }
    int s = 0; waitpid(p, &s, 0); J("refused").b("ok", !(WIFEXITED(s) && WEXITSTATUS(s) == 0)).out();
  } else if (c == "try") {               // either solved or refused, in a child; the events tell which was right
    J("solve").out(); fflush(0); pid_t p = fork();
    if (p == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); so->solve(); J j("solved"); j.i("tot", nl->timeControl.getTotalNumberOfEquilibriumSteps()).i("conv", nl->timeControl.getNumberOfConvergedSteps()); j.out(); _exit(0); }
    int s = 0; waitpid(p, &s, 0); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) J("refused").b("ok", true).out();
  } else if (c == "turned") { J("turned").i("c", I(t[1])).i("a", I(t[2])).i("k", I(t[3])).i("tol", I(t[4])).out();
  } else if (c == "turnedq") { std::vector<long> w; for (int k = 4; k < 7; k++) w.push_back(I(t[k])); J("turnedq").i("c", I(t[1])).i("p", I(t[2])).i("q", I(t[3])).raw("ax", jarr(w)).i("w", I(t[7])).i("tol", I(t[8])).out();
  } else if (c == "rigidck") { J("rigidck").i("c", I(t[1])).out();
  } else if (c == "reactout") {          // history and file of reaction processor k
    int k = I(t[1]); std::vector<std::string> rows, fr; ReactionProcessor* p = rps[k - 1];
    for (auto d : p->dofs) { std::vector<int> v; for (double x : p->getReactions(d)) v.push_back(fixp(x / q, S)); rows.push_back("[\"" + nameOf(d) + "\"," + jarr(v) + "]"); }
    std::string hdr = "[]";
    if (rpFile[k - 1].size()) { std::ifstream in(rpFile[k - 1]); std::string ln; std::getline(in, ln); hdr = jstrs(toks(ln));
      while (std::getline(in, ln)) { Toks w = toks(ln); std::vector<int> v; for (size_t q = 0; q < w.size(); q++) v.push_back(q ? fixp(D(w[q]) / this->q, S) : I(w[q])); fr.push_back(jarr(v)); } }
    J("reactout").i("id", k).raw("r", jarrs(rows)).raw("h", hdr).raw("f", jarrs(fr)).out();
  } else if (c == "cmp") {               // equation by equation text of an MPC (print) -- see TraceFE
    std::ostringstream os; mpcs[I(t[1]) - 1]->print(os); J("mpctext").i("k", I(t[1])).str("s", os.str()).out();
  } else if (c == "seen") {              // the values each element saw at its last update, how often it was updated
    std::vector<std::string> r; for (auto* h : els) { std::string s = "["; bool f = true; for (double v : h->d.seen) { if (!f) s += ","; f = false; s += std::to_string(fixp(v, S)); } r.push_back("{\"k\":" + std::to_string(h->d.kN) + ",\"u\":" + std::to_string(h->d.updN) + ",\"s\":" + s + "]}"); }
    J("seen").raw("v", jarrs(r)).out();
  } else if (c == "dofinfo") { std::ostringstream os; st->printDofInfo(os); std::vector<std::string> ls; std::istringstream is(os.str()); std::string q; while (std::getline(is, q)) ls.push_back(q);
    J("dofinfo").raw("v", jstrs(ls)).out();
  }
  else if (c == "mknodes") {             // mknodes n : n nodes at once
    std::vector<uint32> nums = st->createNodes(I(t[1])); std::vector<std::string> ps; for (uint32 q : nums) { std::vector<int> p; for (int j = 0; j < 3; j++) p.push_back(exact(st->getNode(q).pos[j])); ps.push_back(jarr(p)); }
    J("mknodes").i("n", I(t[1])).raw("nums", jarr(nums)).raw("pos", jarrs(ps)).i("nn", st->nNodes()).out();
  } else if (c == "addnode") { Node* n = new Node; for (int j = 0; j < 3; j++) n->pos[j] = D(t[1 + j]); st->addNode(n);
    J("addnode").raw("p", jarr(std::vector<int>({I(t[1]), I(t[2]), I(t[3])}))).i("nn", st->nNodes()).b("same", &st->getNode(st->nNodes()) == n).out();
  } else if (c == "movenode") { for (int j = 0; j < 3; j++) st->getNode(I(t[1])).pos[j] = D(t[2 + j]);
    J("movenode").i("n", I(t[1])).raw("p", jarr(std::vector<int>({I(t[2]), I(t[3]), I(t[4])}))).out();
  } else if (c == "renode") { std::vector<int> ns; for (size_t k = 2; k < t.size(); k++) { st->getElement(I(t[1])).getNodeNumber(k - 2) = I(t[k]); ns.push_back(I(t[k])); }
    J("renode").i("n", I(t[1])).raw("nodes", jarr(ns)).out();
  } else if (c == "mpcedit") { Mpc* m = mpcs[I(t[1]) - 1]; m->b = D(t[2]); m->eq.front().coef = D(t[3]); J("mpcedit").i("k", I(t[1])).i("b", I(t[2])).i("c", I(t[3])).out();
  } else if (c == "delels") { st->deleteElements(); els.clear(); J("delels").i("ne", st->nElements()).out();
  } else if (c == "delnodes") { st->deleteNodes(); J("delnodes").i("nn", st->nNodes()).out();
  } else if (c == "delmpcs") { st->deleteMpcs(); mpcs.clear(); J("delmpcs").i("nm", st->nMpc()).out();
  } else if (c == "delcolls") { st->deleteMpcCollections(); rigids.clear(); J("delcolls").i("nm", st->nMpc()).out();
  } else if (c == "delcomps") { st->deleteFeComponents(); nco = 0; J("delcomps").i("nc", nco).out();
  } else if (c == "delmesh") { st->deleteMesh(); els.clear(); mpcs.clear(); rigids.clear(); nco = 0; J("delmesh").i("nn", st->nNodes()).i("ne", st->nElements()).i("nm", st->nMpc()).i("nc", nco).out();
  } else if (c == "comp") {              // comp name NODE|ELEM|BAD list
    FEComponent* f = new FEComponent; f->name = t[1]; f->type = FEComponent::typeFromString(t[2]); std::vector<int> v; for (size_t k = 3; k < t.size(); k++) { f->list.push_back(I(t[k])); v.push_back(I(t[k])); }
    st->addFEComponent(f); nco++; J("comp").str("n", t[1]).str("t", t[2]).str("l", FEComponent::labelsOfComponent[f->type]).raw("v", jarr(v)).i("nc", nco).out();
  } else if (c == "comps") {             // every component by index, and the index found for some names
    std::vector<std::string> r, q; for (size_t k = 0; k < nco; k++) { FEComponent* f = st->getFEComponent(k); std::vector<int> v(f->list.begin(), f->list.end());
      r.push_back("{\"n\":\"" + f->name + "\",\"t\":\"" + FEComponent::labelsOfComponent[f->type] + "\",\"l\":" + jarr(v) + "}"); }
    for (const char* n : {"A", "B", "C", "a", ""}) { FEComponent* f = st->getFEComponent(std::string(n)); int ix = 0; for (size_t k = 0; k < nco; k++) if (st->getFEComponent(k) == f && !ix) ix = k + 1; q.push_back("[\"" + std::string(n) + "\"," + std::to_string(f ? ix : 0) + "]"); }
    J("comps").raw("v", jarrs(r)).raw("f", jarrs(q)).out();
  } else if (c == "elnodes") {           // the nodes of every element, by pointer
    std::vector<std::string> r; for (uint32 e = 1; e <= st->nElements(); e++) { std::vector<Node*> p(st->getElement(e).getNNodes()); st->getElementNodes(e, p.data()); std::vector<int> v;
      for (Node* x : p) { int k = 0; for (uint32 n = 1; n <= st->nNodes(); n++) if (&st->getNode(n) == x) k = n; v.push_back(k); }
      r.push_back("{\"n\":" + std::to_string(st->getElement(e).getElNum()) + ",\"s\":" + (&st->getElement(e).getStorage() == st ? "true" : "false") + ",\"v\":" + jarr(v) + "}"); }
    J("elnodes").raw("v", jarrs(r)).out();
  } else if (c == "make") {              // make TYPE n : elements by name
    FEStorage q; q.createElements(2, ElementType::TRUSS3); ElementType ty = ElementFactory::elName2elType(t[1]); std::vector<uint32> v; bool known = ty != ElementType::UNDEFINED; std::vector<std::string> r;
    if (known) { v = q.createElements(I(t[2]), ty); for (uint32 n : v) { Element& e = q.getElement(n); r.push_back("[" + std::to_string(e.getElNum()) + "," + std::to_string(e.getNNodes()) + "," + std::to_string(e.getDim()) + "," + (e.getType() == ty ? "1" : "0") + "," + (&e.getStorage() == &q ? "1" : "0") + "]"); } }
    J("make").str("t", t[1]).i("n", I(t[2])).b("known", known).raw("nums", jarr(v)).raw("v", jarrs(r)).i("ne", q.nElements()).str("l", known ? elTypeLabels[(uint16) ty] : "UNDEFINED").out();
  } else if (c == "dump") { so->dumpMatricesAndVectors("dump.txt"); evDump();
  } else if (c == "bye") { delete so; so = nullptr; delete st; st = nullptr; J("bye").out();   // the end of the solver and of the model
  } else if (c == "cmpdump") {           // the check against the file, in a child
    fflush(0); pid_t p = fork();
    if (p == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); so->compareMatricesAndVectors("dump.txt"); _exit(0); }
    int s = 0; waitpid(p, &s, 0); evAsm("cmpdump0"); J("cmpdump").b("ok", WIFEXITED(s) && WEXITSTATUS(s) == 0).raw("R", vec(st->getR(), true)).out();
  } else abort();
}
// the file of a dump, read independently: matrices [rows, columns, entries], then vectors
void FEDrv::evDump() {
  std::ifstream in("dump.txt"); std::vector<std::string> ms, vs; int nm = st->isTransient() ? 9 : 3; bool ok = true; uint32 nd = st->nDofs(), nc = st->nConstrainedDofs();
  for (int k = 0; k < nm; k++) { int r = -1, cc = -1, n = -1; in >> r >> cc >> n; std::vector<std::string> es; for (int e = 0; e < n && in; e++) { int i, j; double v; in >> i >> j >> v;
      uint32 gi = i + (k % 3 == 2 ? nc : 0), gj = j + (k % 3 >= 1 ? nc : 0); if (q != 1.0 && gi <= nd && gj <= nd) v /= q; if (fabs(v - rint(v)) < 1e-9 * (1 + fabs(v))) v = rint(v);
      es.push_back("[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(exact(v)) + "]"); }
    ms.push_back("[" + std::to_string(r) + "," + std::to_string(cc) + "," + std::to_string(n) + "," + jarrs(es) + "]"); }
  for (int k = 0; k < 2; k++) { int n = -1; in >> n; std::vector<int> v; for (int i = 0; i < n && in; i++) { double x; in >> x; v.push_back(fixp(x / ((uint32) i < nd ? q : 1.0), S)); } vs.push_back(jarr(v)); }
  ok = (bool) in; std::string rest; in >> rest; ok = ok && rest.empty();
  evAsm("asm0"); J("dump").b("ok", ok).raw("m", jarrs(ms)).raw("v", jarrs(vs)).raw("R", vec(st->getR(), true)).out();
}
void runScript(const Script& sc) { for (auto& l : sc) fe.cmd(toks(l)); }
int main(int argc, char** argv) { return driverMain(argc, argv); }
