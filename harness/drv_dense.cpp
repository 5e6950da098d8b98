// Driver: dense vectors and matrices.  Built with the address sanitizer: a vector is shown unless the numbers it
// points to have been released.
#include "common.h"
#include "math/Vec.h"
#include "math/Mat.h"
#include "solidmech.h"
#include <sanitizer/asan_interface.h>
using namespace nla3d; using namespace nla3d::math;
typedef std::vector<std::vector<double>> Rows;
static const double U = 64;
static int f6(double v) { return exact(v * U); }
static std::string rows(const Rows& a) { std::vector<std::string> r; for (auto& x : a) { std::vector<int> y; for (double v : x) y.push_back(exact(v)); r.push_back(jarr(y)); } return jarrs(r); }
static std::string rowsU(const Rows& a, double s) { std::vector<std::string> r; for (auto& x : a) { std::vector<int> y; for (double v : x) y.push_back(s == U ? f6(v) : fixp(v, s)); r.push_back(jarr(y)); } return jarrs(r); }
template <uint16 M, uint16 N> Mat<M, N> mk(const Rows& a) { Mat<M, N> m; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) m[i][j] = a[i][j]; return m; }
template <uint16 N> Vec<N> mkv(const std::vector<double>& a) { Vec<N> v; for (int i = 0; i < N; i++) v[i] = a[i]; return v; }
template <uint16 M, uint16 N> Rows un(Mat<M, N>& m) { Rows r(M, std::vector<double>(N)); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) r[i][j] = m[i][j]; return r; }
template <uint16 N> Rows unv(Vec<N>& v) { Rows r(1); for (int i = 0; i < N; i++) r[0].push_back(v[i]); return r; }
template <uint16 N> MatSym<N> mks(const std::vector<double>& d) { MatSym<N> s; for (size_t i = 0; i < d.size(); i++) s.data[i] = d[i]; return s; }
template <uint16 N> Rows uns(MatSym<N>& s) { Rows r(N, std::vector<double>(N)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] = s.comp(i, j); return r; }
struct In { std::string op; Rows A, B, R0; double c, d; std::vector<int> w; };
static J begin(const In& x) { return J("mat").str("op", x.op).raw("A", rows(x.A)); }
template <uint16 N> void square(const In& x) {
  Mat<N, N> A = mk<N, N>(x.A); Rows r;
  if (x.op == "det") { begin(x).raw("R", rowsU(Rows(1, std::vector<double>(1, A.det())), U)).out(); }
  else if (x.op == "inv") { double S = 10000; Mat<N, N> I = A.inv(A.det()); Mat<N, N> A2 = A; begin(x).i("S", (int) S).raw("R", rowsU(un(I), S)).out(); }
}
template <uint16 N> struct Cutter { static void go(const In& x) { Mat<N, N> A = mk<N, N>(x.A); Mat<N - 1, N - 1> R = A.cross_cut((uint16) x.c, (uint16) x.d); begin(x).i("c", (int) x.c).i("d", (int) x.d).raw("R", rowsU(un(R), U)).out(); } };
template <> struct Cutter<1> { static void go(const In&) { abort(); } };
template <uint16 N> void symm(const In& x) {
  MatSym<N> s = mks<N>(x.A[0]);
  if (x.op == "sym") { Rows c = uns(s); Mat<N, N> m = s.toMat(); begin(x).i("n", N).raw("B", rowsU(c, U)).raw("R", rowsU(un(m), U)).out(); }
  else if (x.op == "symadd") { MatSym<N> t = mks<N>(x.B[0]); s += t; begin(x).i("n", N).raw("B", rows(x.B)).raw("R", rowsU(uns(s), U)).out(); }
  else if (x.op == "sbv") { Vec<N> v = mkv<N>(x.B[0]), r = mkv<N>(x.R0[0]); matBVprod(s, v, x.c / 4, r); begin(x).raw("B", rows(x.B)).raw("R0", rows(x.R0)).i("c", (int) x.c).raw("R", rowsU(unv(r), U)).out(); }
}
// what vectors of fixed size do to a row
template <uint16 N> static void fixedVec(const In& x, size_t i) {
  const std::string& o = x.op; Vec<N> a = mkv<N>(x.A[i]), keep = a, b, r, q; if (i < x.B.size() && x.B[i].size() == N) b = mkv<N>(x.B[i]); double c = x.c / 4; std::vector<double> want(N);
  for (int k = 0; k < N; k++) want[k] = o == "neg" ? -a[k] : o == "scale" ? a[k] * c : o == "add" ? a[k] + b[k] : a[k] - b[k];
  if (o == "neg") { r = -a; q = r; } else if (o == "scale") { q = r = a * c; } else if (o == "add") { r = a + b; q = a; q += b; } else if (o == "sub") { r = a - b; q = a + (-b); }
  else if (o == "near") { bool w = true; for (int k = 0; k < N; k++) w = w && fabs(a[k] - b[k]) <= c; if (a.compare(b, c) != w || b.compare(a, c) != w) abort(); return; } else return;
  if (unv(r)[0] != want || unv(q)[0] != want || unv(a) != unv(keep)) abort();
  std::stringstream st; st << r; Vec<N> back; back.simple_read(st); if (unv(back)[0] != want || back.size() != N) abort();
}
template <uint16 M, uint16 N> void two(const In& x) {
  for (size_t i = 0; i < x.A.size(); i++) fixedVec<N>(x, i);
  const std::string& o = x.op; Mat<M, N> A = mk<M, N>(x.A); J j = begin(x); if (x.B.size()) j.raw("B", rows(x.B)); j.i("c", (int) x.c); if (x.R0.size()) j.raw("R0", rows(x.R0));
  if (o == "T") { auto R = A.transpose(); j.raw("R", rowsU(un(R), U)).out(); }
  else if (o == "neg") { auto R = -A; j.raw("R", rowsU(un(R), U)).out(); }
  else if (o == "scale") { auto R = A * (x.c / 4); j.raw("R", rowsU(un(R), U)).out(); }
  else if (o == "add") { auto B = mk<M, N>(x.B); Mat<M, N> R = A + B, Q; Q = A; Q += B; if (!Q.compare(R, 0.0)) abort(); j.raw("R", rowsU(un(R), U)).out(); }
  else if (o == "sub") { auto R = A - mk<M, N>(x.B); j.raw("R", rowsU(un(R), U)).out(); }
  else if (o == "dot") { Rows R(M, std::vector<double>(M)); for (int i = 0; i < M; i++) for (int k = 0; k < M; k++) R[i][k] = i == k ? A[i].qlength() : A[i] * A[k]; j.raw("R", rowsU(R, U)).out(); }
  else if (o == "near") { auto B = mk<M, N>(x.B); bool r = A.compare(B, x.c / 4); j.b("r", r).out(); }
  else if (o == "btdb") { MatSym<M> D = mks<M>(x.B[0]); MatSym<N> R; for (int a = 0; a < N; a++) for (int b = a; b < N; b++) R.comp(a, b) = x.R0[a][b]; matBTDBprod(A, D, x.c / 4, R); j.raw("R", rowsU(uns(R), U)).out(); }
  else if (o == "btv") { Vec<M> v = mkv<M>(x.B[0]); Vec<N> r = mkv<N>(x.R0[0]); matBTVprod(A, v, x.c / 4, r); j.raw("R", rowsU(unv(r), U)).out(); }
  else if (o == "bv") { Vec<N> v = mkv<N>(x.B[0]); Vec<M> r = mkv<M>(x.R0[0]); matBVprod(A, v, x.c / 4, r); j.raw("R", rowsU(unv(r), U)).out(); }
}
template <uint16 M, uint16 N, uint16 K> void three(const In& x) {
  J j = begin(x); j.raw("B", rows(x.B)).i("c", (int) x.c); if (x.R0.size()) j.raw("R0", rows(x.R0));
  if (x.op == "mul") { Mat<M, N> A = mk<M, N>(x.A); Mat<N, K> B = mk<N, K>(x.B); Mat<M, K> R = A * B; if (K == 1) { Vec<N> v; for (int i = 0; i < N; i++) v[i] = x.B[i][0]; Vec<M> r = A * v; for (int i = 0; i < M; i++) R[i][0] = r[i]; } j.raw("R", rowsU(un(R), U)).out(); }
  else if (x.op == "ab") { Mat<M, N> A = mk<M, N>(x.A); Mat<N, K> B = mk<N, K>(x.B); Mat<M, K> R = mk<M, K>(x.R0); matABprod(A, B, x.c / 4, R); j.raw("R", rowsU(un(R), U)).out(); }
  else if (x.op == "atb") { Mat<N, M> A = mk<N, M>(x.A); Mat<N, K> B = mk<N, K>(x.B); Mat<M, K> R = mk<M, K>(x.R0); matATBprod(A, B, x.c / 4, R); j.raw("R", rowsU(un(R), U)).out(); }
}
template <uint16 M, uint16 N> void pick3(const In& x, int k) { switch (k) { case 1: three<M, N, 1>(x); break; case 2: three<M, N, 2>(x); break; case 3: three<M, N, 3>(x); break; case 4: three<M, N, 4>(x); break; default: abort(); } }
template <uint16 M> void pickN(const In& x, int n, int k) {
  if (k) { switch (n) { case 1: pick3<M, 1>(x, k); break; case 2: pick3<M, 2>(x, k); break; case 3: pick3<M, 3>(x, k); break; case 4: pick3<M, 4>(x, k); break; default: abort(); } }
  else switch (n) { case 1: two<M, 1>(x); break; case 2: two<M, 2>(x); break; case 3: two<M, 3>(x); break; case 4: two<M, 4>(x); break; case 6: two<M, 6>(x); break; default: abort(); } }
static Rows take(const Toks& t, size_t& k) { int m = I(t[k]), n = I(t[k + 1]); k += 2; Rows r(m, std::vector<double>(n)); for (auto& x : r) for (auto& v : x) v = D(t[k++]); return r; }
// the numbers of a dynamic vector, unless released
static dVec* v[8];
static std::vector<dMat*> dm;
static void show(const char* op, const std::vector<int>& a, int r) {
  std::vector<std::string> s; std::vector<int> in;
  for (int k = 1; k <= 3; k++) { if (!v[k] || !v[k]->isInit()) continue; in.push_back(k); if (__asan_region_is_poisoned(v[k]->ptr(), sizeof(double) * v[k]->size())) continue;
    std::vector<int> x; const dVec& c = *v[k]; for (uint32 i = 0; i < c.size(); i++) x.push_back(f6(c[i])); s.push_back("{\"k\":" + std::to_string(k) + ",\"x\":" + jarr(x) + "}"); }
  J j("vec"); j.str("op", op).raw("a", jarr(a)).raw("show", jarrs(s)).raw("init", jarr(in)); if (r >= 0) j.b("r", r); j.out(); }
static std::string grid(dMat& m) { Rows r(m.dM(), std::vector<double>(m.dN())); for (int i = 0; i < m.dM(); i++) for (int k = 0; k < m.dN(); k++) r[i][k] = m[i][k]; return rows(r); }
template <uint16 M, uint16 N> std::string toM(dMat& m) { auto x = m.toMat<M, N>(); return rows(un(x)); }
template <uint16 M, uint16 N> void cpM(dMat& m, const Rows& a) { auto x = mk<M, N>(a); m.cpMat<M, N>(x); }
#define SIZES(F) F(1,1) F(1,2) F(1,3) F(2,1) F(2,2) F(2,3) F(3,1) F(3,2) F(3,3)
void runScript(const Script& sc) {
  for (int k = 0; k < 8; k++) v[k] = new dVec;
  dm.clear(); for (int k = 0; k < 4; k++) { dm.push_back(new dMat(1, 1)); }
  for (auto& l : sc) { Toks t = toks(l); std::string c = t[0];
    if (c == "mat") { In x; x.op = t[1]; size_t k = 2; x.A = take(t, k); x.B = take(t, k); x.R0 = take(t, k); x.c = D(t[k]); x.d = D(t[k + 1]);
      const std::string& o = x.op; int m = x.A.size(), n = m ? x.A[0].size() : 0;
      if (o == "det" || o == "inv") { switch (m) { case 1: square<1>(x); break; case 2: square<2>(x); break; case 3: square<3>(x); break; case 4: square<4>(x); break; case 5: square<5>(x); break; default: abort(); } }
      else if (o == "cut") { switch (m) { case 2: Cutter<2>::go(x); break; case 3: Cutter<3>::go(x); break; case 4: Cutter<4>::go(x); break; default: abort(); } }
      else if (o == "sym" || o == "symadd" || o == "sbv") { int s = 1; while (s * (s + 1) / 2 < n) s++; switch (s) { case 1: symm<1>(x); break; case 2: symm<2>(x); break; case 3: symm<3>(x); break; case 4: symm<4>(x); break; case 6: symm<6>(x); break; default: abort(); } }
      else if (o == "eig") { double S = 1000; Mat<3, 3> A = mk<3, 3>(x.A); Vec<3> e = A.eigenvalues(); std::vector<int> w; for (double q : x.B[0]) w.push_back((int) q); begin(x).raw("w", jarr(w)).i("S", (int) S).raw("R", rowsU(unv(e), S)).out(); }
      else if (o == "strain") { double Cc[6], E[6], IC[3], N[6], S = 10000; int q = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { Cc[q] = 0; for (int k = 0; k < 3; k++) Cc[q] += x.A[k][i] * x.A[k][j]; E[q] = x.R0[0][q]; N[q] = 77; q++; }
        solidmech::E_C(Cc, E); solidmech::IC_C(Cc, IC); solidmech::invC_C(Cc, solidmech::J_C(Cc), N); std::vector<int> e, i3, ni; for (int k = 0; k < 6; k++) { e.push_back(f6(E[k])); ni.push_back(fixp(N[k], S)); } for (int k = 0; k < 3; k++) i3.push_back(exact(IC[k] * U, 1e-6));
        begin(x).raw("R0", rows(x.R0)).raw("E", jarr(e)).raw("I", jarr(i3)).raw("N", jarr(ni)).i("S", (int) S).out(); }
      else { int kk = (o == "mul" || o == "ab" || o == "atb") ? x.B[0].size() : 0; if (o == "atb") { m = x.A[0].size(); n = x.A.size(); }
        switch (m) { case 1: pickN<1>(x, n, kk); break; case 2: pickN<2>(x, n, kk); break; case 3: pickN<3>(x, n, kk); break; case 4: pickN<4>(x, n, kk); break; case 6: pickN<6>(x, n, kk); break; default: abort(); } }
      continue; }
    std::vector<int> a; for (size_t k = 1; k < t.size(); k++) a.push_back(I(t[k]));
    if (c == "dyn") { std::string o = t[1]; a.clear(); for (size_t k = 2; k < t.size(); k++) a.push_back(I(t[k])); dMat*& m = dm[a[0]]; std::string A;
      if (o == "resize") m->resize(a[1], a[2]);
      else if (o == "fill") { size_t k = 3; Rows r = take(t, k); A = rows(r); m->resize(r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t q = 0; q < r[0].size(); q++) m->ptr()[i * r[0].size() + q] = r[i][q]; }
      else if (o == "zero") m->zero();
      else if (o == "set") (*m)[a[1]][a[2]] = a[3];
      else if (o == "assign") *m = *dm[a[1]];
      else if (o == "copy") { dMat* q = new dMat(*dm[a[1]]); delete m; m = q; }
      else if (o == "cp") { size_t k = 3; Rows r = take(t, k); A = rows(r); int M = r.size(), N = r[0].size();
#define F(P, Q) if (M == P && N == Q) cpM<P, Q>(*m, r);
        SIZES(F)
#undef F
      }
      else if (o == "cpv") { size_t k = 4; Rows r = take(t, k); A = rows(r); int n = r[0].size(); if (n == 1) { auto x = mkv<1>(r[0]); m->cpVec(x, a[1]); } else if (n == 2) { auto x = mkv<2>(r[0]); m->cpVec(x, a[1]); } else { auto x = mkv<3>(r[0]); m->cpVec(x, a[1]); } }
      else if (o == "to") { int M = a[1], N = a[2];
#define F(P, Q) if (M == P && N == Q) A = toM<P, Q>(*m);
        SIZES(F)
#undef F
      }
      else if (o == "tov") { int n = a[2]; if (n == 1) { auto x = m->toVec<1>(a[1]); A = rows(unv(x)); } else if (n == 2) { auto x = m->toVec<2>(a[1]); A = rows(unv(x)); } else { auto x = m->toVec<3>(a[1]); A = rows(unv(x)); } }
      else abort();
      std::vector<std::string> all; for (int k = 1; k <= 3; k++) all.push_back(grid(*dm[k])); J j("dyn"); j.str("op", o).raw("a", jarr(a)).raw("all", jarrs(all)); if (A.size()) j.raw("A", A); j.out(); continue; }
    dVec*& k = v[a[0]]; int r = -1;
    if (c == "new") { if (k->isInit() && a.size() % 2) k->reinit(a.size() - 1, 5.0); else { dVec* q = new dVec(a.size() - 1, 5.0); delete k; k = q; } for (size_t i = 1; i < a.size(); i++) (*k)[i - 1] = a[i]; }
    else if (c == "view") { if ((a[2] + a[3]) % 2) k->reinit(*v[a[1]], a[2], a[3]); else { dVec* q = new dVec(*v[a[1]], a[2], a[3]); delete k; k = q; } }
    else if (c == "clear") k->clear();
    else if (c == "copy") { delete k; k = new dVec((const dVec&) *v[a[1]]); }
    else if (c == "move") { delete k; k = new dVec(std::move(*v[a[1]])); }
    else if (c == "assign") *k = *v[a[1]];
    else if (c == "addto") *k += *v[a[1]];
    else if (c == "subto") *k -= *v[a[1]];
    else if (c == "add") *k = *v[a[1]] + *v[a[2]];
    else if (c == "sub") *k = *v[a[1]] - *v[a[2]];
    else if (c == "neg") *k = -*v[a[1]];
    else if (c == "times") { if (a[2] > 0) *k = *v[a[1]] * (double) a[2]; else *k = (double) a[2] * *v[a[1]]; }
    else if (c == "over") *k = *v[a[1]] / (double) a[2];
    else if (c == "set") (*k)[a[1]] = a[2];
    else if (c == "fill") { if (a[1]) k->fill(a[1]); else k->zero(); }
    else if (c == "text") { std::stringstream s; v[a[1]]->writeTextFormat(s); k->readTextFormat(s); }
    else if (c == "same") r = k->compare(*v[a[1]], a[2] / U);
    else abort();
    show(c.c_str(), a, r); }
}
int main(int argc, char** argv) { return driverMain(argc, argv); }
