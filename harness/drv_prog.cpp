// Driver: the nla3d program itself, run on files in a scratch directory of the driver's own.
#define main nla3d_main
#include "main.cpp"
#undef main
#include "common.h"
#include <dirent.h>

static std::string slurp(const char* n) { std::ifstream f(n); std::stringstream s; s << f.rdbuf(); return s.str(); }
static int vtkFiles() { int n = 0; DIR* d = opendir("."); while (dirent* e = readdir(d)) { std::string s = e->d_name; if (s.size() > 4 && s.substr(s.size() - 4) == ".vtk") n++; } closedir(d); return n; }
static double S = 1000;

void runScript(const Script& sc) {
  char dir[] = "progXXXXXX"; if (!mkdtemp(dir) || chdir(dir)) abort();
  std::string text, ref;
  for (auto& l : sc) {
    if (l.compare(0, 2, "w ") == 0) { text += l.substr(2) + "\n"; continue; }
    if (l.compare(0, 2, "c ") == 0) { ref += l.substr(2) + "\n"; continue; }
    Toks t = toks(l); const std::string& c = t[0];
    auto ints = [&](size_t a, size_t b) { std::vector<long> r; for (size_t k = a; k < b; k++) r.push_back(I(t[k])); return jarr(r); };
    if (c == "nodes") { S = D(t[1]); int n = I(t[3]); std::vector<std::string> ps; for (int i = 0; i < n; i++) ps.push_back(ints(4 + 3 * i, 7 + 3 * i)); J("nodes").i("S", (int) S).i("dim", I(t[2])).raw("p", jarrs(ps)).out(); }
    else if (c == "mat") J("mat").str("k", t[1]).raw("c", ints(2, t.size())).out();
    else if (c == "el") J("el").raw("n", ints(1, t.size())).out();
    else if (c == "path") J("path").raw("H", jarrs({ints(1, 4), ints(4, 7), ints(7, 10)})).i("d", I(t[10])).i("n", I(t[11])).i("last", I(t[12])).out();     // displacements H/d * X, steps, only the last one known
    else if (c == "watch") { J("watch").raw("n", ints(1, t.size())).out(); }                                                                           // nodes whose forces make up the reaction
    else if (c == "dofs") { std::vector<std::string> v(t.begin() + 1, t.end()); J("dofs").raw("d", jstrs(v)).out(); }
    else if (c == "refs") J("refs").raw("v", ints(2, t.size())).i("thr", I(t[1])).out();                                                                // threshold and reference values, times S
    else if (c == "expect") J("expect").str("x", t[1]).i("vtk", I(t[2])).out();
    else if (c == "run") {
      { std::ofstream f("model.cdb"); f << text; } { std::ofstream f("curve.txt"); f << ref; }
      fflush(0); pid_t p = fork();
      if (p == 0) {
        int fd = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
        el::Configurations k; k.setToDefault(); k.setGlobally(el::ConfigurationType::ToFile, "false"); k.setGlobally(el::ConfigurationType::ToStandardOutput, "true"); el::Loggers::reconfigureAllLoggers(k); el::Loggers::setDefaultConfigurations(k, true);
        std::vector<char*> av; av.push_back((char*) "nla3d"); for (size_t i = 1; i < t.size(); i++) av.push_back((char*) t[i].c_str()); av.push_back(0);
        std::exit(nla3d_main(av.size() - 1, av.data()));
      }
      int st = 0; while (waitpid(p, &st, 0) < 0) {}
      // the table of reactions
      std::vector<std::string> labels, rows; std::istringstream o(slurp("out.txt")); std::string line; bool in = false;
      while (std::getline(o, line)) { Toks w = toks(line);
        if (w.size() && w[0] == "Loadstep") { in = true; labels.assign(w.begin() + 1, w.end()); continue; }
        if (in) { if (w.size() != labels.size() + 1 || w[0] != std::to_string(rows.size())) break; std::vector<int> r; for (size_t i = 1; i < w.size(); i++) r.push_back(fixp(D(w[i]), S)); rows.push_back(jarr(r)); } }
      J("run").i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 128).raw("labels", jstrs(labels)).raw("rows", jarrs(rows)).i("vtk", vtkFiles()).out(); }
    else abort();
  }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
