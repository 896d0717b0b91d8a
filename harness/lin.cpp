// Linear-algebra helpers (numerical/linear_algebra_utilities.*): stacking, blocks, complex/real conversion, sanity checks.
#include "gs.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"

#include <complex>
#include <vector>
using namespace geometrycentral;
#define EQ(a, b, what) gs_assert(gs_close((a), (b), 1e-7), what)
typedef SparseMatrix<double> SM;
typedef std::complex<double> C;
typedef SparseMatrix<C> SC;
// which entries are stored is a case split (pattern p), their values are symbolic
static SM mat(int r, int c, uint64_t p) {
  SM m(r, c); std::vector<Eigen::Triplet<double>> t;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (p >> (i * c + j) & 1) t.emplace_back(i, j, gs_double("m", i - 2 * j + .5));
  m.setFromTriplets(t.begin(), t.end()); return m;
}
static double at(const SM& m, int i, int j) { return m.coeff(i, j); }
static uint64_t pat(int n) { return gs_choose("pattern", 1ull << n); }
typedef std::vector<SM, Eigen::aligned_allocator<SM>> Stack;

GS_HARNESS(linstack) {
  gs_mode_real();
  uint64_t p = pat(4); int r = 1 + gs_choose("r", 2), c = 1 + gs_choose("c", 2), r2 = gs_choose("r2", 3);
  SM a = mat(r, c, p), b = mat(r2, c, p >> 1 | 1), d = mat(1, c, 1);
  SM v = verticalStack<double>(Stack{a, b, d});
  gs_assert(v.rows() == r + r2 + 1 && v.cols() == c, "verticalStack has the rows of all parts and their columns");
  for (int i = 0; i < v.rows(); i++) for (int j = 0; j < c; j++) EQ(at(v, i, j), i < r ? at(a, i, j) : i < r + r2 ? at(b, i - r, j) : at(d, i - r - r2, j), "verticalStack puts the parts below each other");
  SM at_ = a.transpose(), bt = b.transpose(), dt = d.transpose();
  SM h = horizontalStack<double>(Stack{at_, bt, dt});
  gs_assert(h.cols() == r + r2 + 1 && h.rows() == c, "horizontalStack has the columns of all parts and their rows");
  for (int i = 0; i < v.rows(); i++) for (int j = 0; j < c; j++) EQ(at(h, j, i), at(v, i, j), "horizontalStack puts the parts beside each other");
  gs_assert(v.nonZeros() == a.nonZeros() + b.nonZeros() + d.nonZeros(), "verticalStack stores exactly the stored entries");
}
GS_HARNESS(linstackbad) {
  int n = 0;
  try { verticalStack<double>(Stack{}); } catch (std::logic_error&) { n++; }
  try { horizontalStack<double>(Stack{}); } catch (std::logic_error&) { n++; }
  int c = 1 + gs_choose("c", 2), d = 1 + gs_choose("d", 2), k = 0, x = 0;
  try { verticalStack<double>(Stack{SM(2, c), SM(1, c), SM(1, d)}); k++; } catch (std::logic_error&) { x++; }
  try { horizontalStack<double>(Stack{SM(c, 2), SM(c, 1), SM(d, 1)}); k++; } catch (std::logic_error&) { x++; }
  gs_assert(n == 2, "stacking nothing throws"); gs_assert(k == (c == d ? 2 : 0) && x == (c == d ? 0 : 2), "stacking parts whose sizes do not match throws");
}
GS_HARNESS(lindiag) {
  gs_mode_real();
  int n = 1 + gs_choose("n", 3); SM a = mat(n, n, n < 3 ? pat(n * n) : pat(3) * 73), b = a; double s = gs_double("s", .75);
  shiftDiagonal(b, s);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) EQ(at(b, i, j), at(a, i, j) + (i == j ? s : 0.), "shiftDiagonal adds to the diagonal only");
  SM e = identityMatrix<double>(n); gs_assert(e.rows() == n && e.cols() == n, "identityMatrix size");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) EQ(at(e, i, j), i == j, "identityMatrix");
  bool t = false; SM q(n, n + 1); try { shiftDiagonal(q, s); } catch (std::logic_error&) { t = true; } gs_assert(t, "shiftDiagonal of a matrix that is not square throws");
}
GS_HARNESS(lincomplex) {
  gs_mode_real();
  uint64_t p = pat(4); SC m(2, 2); std::vector<Eigen::Triplet<C>> t; C e[2][2];
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { e[i][j] = 0; if (p >> (2 * i + j) & 1) { e[i][j] = C(gs_double("re", i + 1), gs_double("im", j - 1)); t.emplace_back(i, j, e[i][j]); } }
  m.setFromTriplets(t.begin(), t.end());
  SM r = complexToReal(m); gs_assert(r.rows() == 4 && r.cols() == 4, "complexToReal doubles both sizes");
  Vector<C> x(2); for (int i = 0; i < 2; i++) x(i) = C(gs_double("x", i + 2), gs_double("y", 1 - i));
  Vector<double> xr = complexToReal(x); gs_assert(xr.rows() == 4, "complexToReal doubles the length");
  Vector<C> xb = realToComplex(xr); gs_assert(xb.rows() == 2, "realToComplex halves the length");
  for (int i = 0; i < 2; i++) { EQ(xb(i).real(), x(i).real(), "realToComplex inverts complexToReal"); EQ(xb(i).imag(), x(i).imag(), "realToComplex inverts complexToReal"); }
  for (int i = 0; i < 2; i++) {
    double re = 0, im = 0, R = 0, I = 0;
    for (int j = 0; j < 2; j++) { re += e[i][j].real() * x(j).real() - e[i][j].imag() * x(j).imag(); im += e[i][j].real() * x(j).imag() + e[i][j].imag() * x(j).real(); }
    for (int k = 0; k < 4; k++) { R += at(r, 2 * i, k) * xr(k); I += at(r, 2 * i + 1, k) * xr(k); }
    EQ(R, re, "the real system multiplies like the complex one"); EQ(I, im, "the real system multiplies like the complex one");
  }
}
GS_HARNESS(linblock) {
  gs_mode_real();
  int n = 3; uint64_t p = gs_tier() ? pat(9) : pat(5) * 17 & 511; SM m = mat(n, n, p); uint64_t s = gs_choose("set", 8); bool side = gs_choose("side", 2);
  Vector<bool> A(n); for (int i = 0; i < n; i++) A(i) = s >> i & 1;
  BlockDecompositionResult<double> b = blockDecomposeSquare(m, A, side);
  int nA = __builtin_popcountll(s), nB = n - nA;
  gs_assert(b.origIndsA.rows() == nA && b.origIndsB.rows() == nB && b.newInds.rows() == n && b.isA.rows() == n, "the block decomposition has an index for every row");
  gs_assert(b.AA.rows() == nA && b.AA.cols() == nA && b.AB.rows() == nA && b.AB.cols() == nB, "sizes of the A blocks");
  if (side) gs_assert(b.BA.rows() == nB && b.BA.cols() == nA && b.BB.rows() == nB && b.BB.cols() == nB, "sizes of the B blocks"); else gs_assert(!b.BA.size() && !b.BB.size(), "B blocks are empty when not requested");
  for (int i = 0; i < n; i++) gs_assert(b.isA(i) == A(i) && (int)(A(i) ? b.origIndsA : b.origIndsB)(b.newInds(i)) == i, "newInds and origInds invert each other");
  for (int i = 1; i < nA; i++) gs_assert(b.origIndsA(i - 1) < b.origIndsA(i), "blocks keep the order of rows"); for (int i = 1; i < nB; i++) gs_assert(b.origIndsB(i - 1) < b.origIndsB(i), "blocks keep the order of rows");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (!A(i) && !side) continue; EQ(at(A(i) ? A(j) ? b.AA : b.AB : A(j) ? b.BA : b.BB, b.newInds(i), b.newInds(j)), at(m, i, j), "every entry of the matrix is in its block"); }
  if (side) gs_assert(b.AA.nonZeros() + b.AB.nonZeros() + b.BA.nonZeros() + b.BB.nonZeros() == m.nonZeros(), "the blocks store exactly the stored entries");
  Vector<double> v(n), va, vb; for (int i = 0; i < n; i++) v(i) = gs_double("v", i + .5);
  decomposeVector(b, v, va, vb); gs_assert(va.rows() == nA && vb.rows() == nB, "decomposeVector sizes");
  for (int i = 0; i < n; i++) EQ((A(i) ? va : vb)(b.newInds(i)), v(i), "decomposeVector splits the vector like the rows");
  Vector<double> w = reassembleVector(b, va, vb); gs_assert(w.rows() == n, "reassembleVector size"); for (int i = 0; i < n; i++) EQ(w(i), v(i), "reassembleVector inverts decomposeVector");
  bool t = false; try { blockDecomposeSquare(SM(n, n + 1), A, side); } catch (std::logic_error&) { t = true; } gs_assert(t, "decomposing a matrix that is not square throws");
}
GS_HARNESS(linsym) {
  gs_mode_real();
  int n = 2 + gs_tier(); SM m = mat(n, n, n == 2 ? pat(4) : pat(6) * 9 & 511); double eps = gs_double("eps", .5); gs_assume(eps >= 0);
  double worst = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double d = at(m, i, j) - at(m, j, i); if (d < 0) d = -d; if (d > worst) worst = d; }
  int t = 0; try { checkSymmetric(m, eps); } catch (std::logic_error&) { t++; } try { checkHermitian(m, eps); } catch (std::logic_error&) { t++; }
  gs_assert(t == (worst > eps ? 2 : 0), "checkSymmetric/checkHermitian throw exactly when two mirrored entries differ by more than the tolerance");
  SM s = m + SM(m.transpose()); t = 0; try { checkSymmetric(s, 0.); checkHermitian(s, 0.); } catch (std::logic_error&) { t++; } gs_assert(!t, "a symmetric matrix passes");
}
GS_HARNESS(linherm) {
  gs_mode_real();
  double d0 = gs_double("d0", 1), d1 = gs_double("d1", 2), i0 = gs_double("i0", 0), re = gs_double("re", 3), im = gs_double("im", -1), re2 = gs_double("re2", 3), im2 = gs_double("im2", 1), eps = gs_double("eps", .5); gs_assume(eps >= 0);
  SC m(2, 2); m.insert(0, 0) = C(d0, i0); m.insert(0, 1) = C(re, im); m.insert(1, 0) = C(re2, im2); m.insert(1, 1) = C(d1, 0); m.makeCompressed();
  double a = (re - re2) * (re - re2), h = a + (im + im2) * (im + im2), s = a + (im - im2) * (im - im2), g = 4 * i0 * i0, e = eps * eps;
  bool t = false; try { checkHermitian(m, eps); } catch (std::logic_error&) { t = true; } gs_assert(t == (h > e || g > e), "checkHermitian throws exactly when the matrix differs from its conjugate transpose");
  t = false; try { checkSymmetric(m, eps); } catch (std::logic_error&) { t = true; } gs_assert(t == (s > e), "checkSymmetric of a complex matrix compares without conjugation");
}
static bool fin(double d) { return d <= 1.7976931348623157e308 && d >= -1.7976931348623157e308; }
GS_HARNESS(linfinite) {
  double a = gs_double("a", 1), b = gs_double("b", 2); bool ok = fin(a) && fin(b), t = false;
  int k = gs_choose("kind", 6);
  try {
    if (k == 0) { SM m(2, 2); m.insert(0, 1) = a; m.insert(1, 0) = b; checkFinite(m); }
    if (k == 1) { Vector<double> v(2); v << a, b; checkFinite(v); }
    if (k == 2) { Eigen::Matrix<double, 1, Eigen::Dynamic> v(2); v << a, b; checkFinite(v); }
    if (k == 3) { DenseMatrix<double> m(2, 2); m << 0, a, b, 0; checkFinite(m); }
    if (k == 4) { Vector<C> v(2); v << C(0, a), C(b, 0); checkFinite(v); }
    if (k == 5) { SC m(2, 2); m.insert(0, 1) = C(0, a); m.insert(1, 0) = C(b, 0); checkFinite(m); }
  } catch (std::logic_error&) { t = true; }
  gs_assert(t == !ok, "checkFinite throws exactly when an entry is infinite or not a number");
}
GS_HARNESS(linunpack) {
  gs_mode_real();
  int r = gs_choose("r", 3), c = gs_choose("c", 3); DenseMatrix<double> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = gs_double("m", i + j * .5);
  std::vector<std::vector<double>> v = unpackMatrixToStdVector(m); gs_assert((int)v.size() == r, "unpackMatrixToStdVector has one vector per row");
  for (int i = 0; i < r; i++) { gs_assert((int)v[i].size() == c, "unpackMatrixToStdVector rows have all columns"); for (int j = 0; j < c; j++) EQ(v[i][j], m(i, j), "unpackMatrixToStdVector keeps every entry"); }
}
