// Vector2, Vector3, Quaternion and elementary geometry over exact reals (exactness-sensitive facts over IEEE doubles).
#include "gs.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"
#include "geometrycentral/utilities/quaternion.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include "geometrycentral/utilities/utilities.h"

#include <sstream>
#include <cstring>
using namespace geometrycentral;
#define TOL 1e-7
#define EQ(a, b, what) gs_assert(gs_close((a), (b), TOL), what)
static void eq2(Vector2 a, Vector2 b, const char* w) { EQ(a.x, b.x, w); EQ(a.y, b.y, w); }
static void eq3(Vector3 a, Vector3 b, const char* w) { EQ(a.x, b.x, w); EQ(a.y, b.y, w); EQ(a.z, b.z, w); }
static double D(double d) { return gs_double("x", d); }
static Vector2 V2(double a, double b) { return {D(a), D(b)}; }
static Vector3 V3(double a, double b, double c) { return {D(a), D(b), D(c)}; }
static Vector2 cm(Vector2 a, Vector2 b) { return {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; }
static double d2(Vector2 a, Vector2 b) { return a.x * b.x + a.y * b.y; }
static double d3(Vector3 a, Vector3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

GS_HARNESS(v2arith) {
  gs_mode_real();
  Vector2 u = V2(1, 2), v = V2(-3, .5), w; double s = D(2.5);
  eq2(u + v, {u.x + v.x, u.y + v.y}, "Vector2 sum"); eq2(u - v, {u.x - v.x, u.y - v.y}, "Vector2 difference"); eq2(-u, {0 - u.x, 0 - u.y}, "Vector2 negation");
  eq2(u * s, {u.x * s, u.y * s}, "Vector2 times scalar"); eq2(s * u, {u.x * s, u.y * s}, "scalar times Vector2"); eq2(3 * u, {3. * u.x, 3. * u.y}, "integer times Vector2");
  eq2(u * v, cm(u, v), "Vector2 product is the complex product");
  w = u; w += v; eq2(w, u + v, "Vector2 +="); w = u; w -= v; eq2(w, u - v, "Vector2 -="); w = u; w *= v; eq2(w, cm(u, v), "Vector2 *= vector"); w = u; w *= s; eq2(w, u * s, "Vector2 *= scalar");
  w = u; w *= w; eq2(w, cm(u, u), "Vector2 *= itself"); w = u; w += w; eq2(w, u * 2., "Vector2 += itself"); w = u; w -= w; eq2(w, Vector2{0, 0}, "Vector2 -= itself");
  eq2(u.conj(), {u.x, 0 - u.y}, "Vector2 conj"); eq2(u.rotate90(), cm(u, {0, 1}), "rotate90 turns counter-clockwise");
  EQ(dot(u, v), d2(u, v), "Vector2 dot"); EQ(cross(u, v), u.x * v.y - u.y * v.x, "Vector2 cross"); eq3(cross3(u, v), {0, 0, u.x * v.y - u.y * v.x}, "Vector2 cross3"); EQ(sum(u), u.x + u.y, "Vector2 sum of components");
  EQ(u.norm2(), d2(u, u), "Vector2 norm2"); EQ(norm2(u), d2(u, u), "Vector2 norm2");
  EQ(u[0], u.x, "Vector2 component access"); EQ(u[1], u.y, "Vector2 component access"); w = u; w[0] = v.y; w[1] = v.x; eq2(w, {v.y, v.x}, "Vector2 component writes");
  std::complex<double> c = u; EQ(c.real(), u.x, "conversion to std::complex"); EQ(c.imag(), u.y, "conversion to std::complex"); eq2(Vector2::fromComplex(c), u, "fromComplex inverts the conversion");
  eq2(Vector2::zero(), {0, 0}, "Vector2::zero"); eq2(Vector2::constant(s), {s, s}, "Vector2::constant");
}
GS_HARNESS(v2div) {
  gs_mode_real();
  Vector2 u = V2(1, 2), v = V2(-3, .5), w; double s = D(2.5);
  gs_assume(s != 0); gs_assume(v.x * v.x + v.y * v.y > 0);
  eq2(cm(u / v, v), u, "Vector2 quotient inverts the complex product"); w = u; w /= v; eq2(cm(w, v), u, "Vector2 /= inverts the complex product"); eq2(cm(v.inv(), v), {1, 0}, "inv() is the complex reciprocal");
  w = v; w /= w; eq2(w, {1, 0}, "Vector2 /= itself");
  eq2(u / s * s, u, "Vector2 over scalar"); w = u; w /= s; eq2(w * s, u, "Vector2 /= scalar");
}
GS_HARNESS(v2norm) {
  gs_mode_real();
  Vector2 u = V2(1, 2); double n = u.norm(), t = D(1.5);
  EQ(n * n, d2(u, u), "norm squares to the sum of squares"); gs_assert(n >= 0, "norm is nonnegative"); EQ(norm(u), n, "norm(v) equals v.norm()");
  gs_assume(u.x * u.x + u.y * u.y > 0);
  eq2(u.normalize() * n, u, "normalize() keeps the direction with unit length"); eq2(normalize(u), u.normalize(), "normalize(v)"); eq2(u.unit(), u.normalize(), "unit()"); eq2(unit(u), u.normalize(), "unit(v)");
  eq2(u.normalizeCutoff(), u.normalize(), "normalizeCutoff() with no cutoff normalises a nonzero vector");
  gs_assume(t >= 0);
  Vector2 c = u.normalizeCutoff(t); eq2(normalizeCutoff(u, t), c, "normalizeCutoff(v, m) equals v.normalizeCutoff(m)");
  if (n <= t) eq2(c, u, "vectors no longer than the cutoff are unchanged"); else eq2(c * n, u, "vectors longer than the cutoff are normalised");
}
GS_HARNESS(v2zero) { gs_mode_real(); Vector2 z{0, 0}; double t = D(1.5); gs_assume(t >= 0); eq2(z.normalizeCutoff(t), z, "normalizeCutoff keeps the zero vector"); eq2(normalizeCutoff(z), z, "normalizeCutoff keeps the zero vector");
  Vector3 y{0, 0, 0}; eq3(y.normalizeCutoff(t), y, "normalizeCutoff keeps the zero vector"); eq3(normalizeCutoff(y), y, "normalizeCutoff keeps the zero vector"); }
GS_HARNESS(v2rot) {
  gs_mode_real();
  Vector2 u = V2(1, 2); double t = D(.7), c = cos(t), s = sin(t);
  eq2(Vector2::fromAngle(t), {c, s}, "fromAngle"); eq2(u.rotateCCW(t), cm(u, {c, s}), "rotateCCW turns counter-clockwise"); eq2(u.rotateCW(t), cm(u, {c, 0 - s}), "rotateCW turns clockwise"); eq2(u.rotate(t), u.rotateCW(t), "rotate (deprecated) is rotateCW");
  eq2(u.rotateCCW(t).rotateCW(t), u, "rotations invert each other"); eq2(Vector2::fromAngle(t) * u, u.rotateCCW(t), "multiplying by a unit vector rotates");
  gs_assume(u.x * u.x + u.y * u.y > 0);
  double n = u.norm(); EQ(cos(u.arg()) * n, u.x, "arg() is the angle from the x axis"); EQ(sin(u.arg()) * n, u.y, "arg() is the angle from the x axis"); EQ(cos(arg(u)), cos(u.arg()), "arg(v)"); EQ(sin(arg(u)), sin(u.arg()), "arg(v)");
}
GS_HARNESS(v2angle) {
  gs_mode_real();
  Vector2 u = V2(1, 2), v = V2(-3, .5); gs_assume(u.x * u.x + u.y * u.y > 0); gs_assume(v.x * v.x + v.y * v.y > 0);
  double a = angle(u, v), o = orientedAngle(u, v), n = norm(u) * norm(v), k = u.x * v.y - u.y * v.x;
  EQ(cos(a) * n, d2(u, v), "angle(u, v) has the cosine of the angle between u and v"); EQ(sin(a) * sin(a) * n * n, k * k, "angle(u, v) has the sine of the angle between u and v up to sign"); gs_assert(sin(a) >= 0, "angle(u, v) lies in [0, pi]");
  EQ(cos(o) * n, d2(u, v), "orientedAngle turns u to v counter-clockwise"); EQ(sin(o) * n, k, "orientedAngle turns u to v counter-clockwise");
}
GS_HARNESS(v2order) {
  gs_mode_real();
  Vector2 u = V2(1, 2), v = V2(-3, 4), m = componentwiseMin(u, v), M = componentwiseMax(u, v);
  eq2(m, {u.x < v.x ? u.x : v.x, u.y < v.y ? u.y : v.y}, "componentwiseMin"); eq2(M, {u.x > v.x ? u.x : v.x, u.y > v.y ? u.y : v.y}, "componentwiseMax");
}
GS_HARNESS(v2clamp) {
  gs_mode_real();
  Vector2 l = V2(0, 1), h = V2(2, 3), v = V2(-3, 4); gs_assume(l.x <= h.x); gs_assume(l.y <= h.y); Vector2 c = clamp(v, l, h);
  EQ(c.x, v.x < l.x ? l.x : v.x > h.x ? h.x : v.x, "clamp acts on x"); EQ(c.y, v.y < l.y ? l.y : v.y > h.y ? h.y : v.y, "clamp acts on y");
}
// IEEE doubles: every bit pattern
static double raw(const char* n) { return gs_double(n, 1.25); }
GS_HARNESS(fp_predicates) {
  Vector2 u{raw("a"), raw("b")}; Vector3 w{u.x, u.y, raw("c")};
  auto fin = [](double d) { return d - d == 0; }; auto num = [](double d) { return d == d; };
  gs_assert(u.isFinite() == (fin(u.x) && fin(u.y)), "isFinite: every component finite"); gs_assert(isfinite(u) == u.isFinite(), "isfinite(v)"); gs_assert(u.isDefined() == (num(u.x) && num(u.y)), "isDefined: no component NaN"); gs_assert(isDefined(u) == u.isDefined(), "isDefined(v)");
  gs_assert(w.isFinite() == (fin(w.x) && fin(w.y) && fin(w.z)), "isFinite: every component finite"); gs_assert(isfinite(w) == w.isFinite(), "isfinite(v)"); gs_assert(w.isDefined() == (num(w.x) && num(w.y) && num(w.z)), "isDefined: no component NaN"); gs_assert(isDefined(w) == w.isDefined(), "isDefined(v)");
}
GS_HARNESS(fp_equality) {
  Vector2 u{raw("a"), raw("b")}, v{raw("c"), raw("d")};
  gs_assert((u == v) == (u.x == v.x && u.y == v.y), "Vector2 equality is componentwise"); gs_assert((u != v) == !(u == v), "Vector2 inequality negates equality");
  Vector3 p{u.x, u.y, raw("e")}, q{v.x, v.y, raw("f")};
  gs_assert((p == q) == (p.x == q.x && p.y == q.y && p.z == q.z), "Vector3 equality is componentwise"); gs_assert((p != q) == !(p == q), "Vector3 inequality negates equality");
}
static bool bits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
GS_HARNESS(fp_special) {
  gs_assert(Vector2::infinity().x > 1e308 && Vector2::infinity().y > 1e308 && !Vector2::infinity().isFinite() && Vector2::infinity().isDefined(), "Vector2::infinity"); gs_assert(!Vector2::undefined().isDefined() && Vector2::undefined().x != Vector2::undefined().x && Vector2::undefined().y != Vector2::undefined().y, "Vector2::undefined");
  gs_assert(Vector3::infinity().x > 1e308 && Vector3::infinity().y > 1e308 && Vector3::infinity().z > 1e308, "Vector3::infinity"); Vector3 n = Vector3::undefined(); gs_assert(n.x != n.x && n.y != n.y && n.z != n.z, "Vector3::undefined");
  double a = raw("a"), b = raw("b"), c = raw("c"); Vector3 v{a, b, c}; gs_assert(bits(v[0], a) && bits(v[1], b) && bits(v[2], c), "component access returns the stored value"); Vector2 w{a, b}; gs_assert(bits(w[0], a) && bits(w[1], b), "component access returns the stored value");
}
GS_HARNESS(v3arith) {
  gs_mode_real();
  Vector3 u = V3(1, 2, -1), v = V3(-3, .5, 2), w; double s = D(2.5);
  eq3(u + v, {u.x + v.x, u.y + v.y, u.z + v.z}, "Vector3 sum"); eq3(u - v, {u.x - v.x, u.y - v.y, u.z - v.z}, "Vector3 difference"); eq3(-u, {0 - u.x, 0 - u.y, 0 - u.z}, "Vector3 negation");
  Vector3 us{u.x * s, u.y * s, u.z * s}; eq3(u * s, us, "Vector3 times scalar"); eq3(s * u, us, "scalar times Vector3");
  w = u; w += v; eq3(w, u + v, "Vector3 +="); w = u; w -= v; eq3(w, u - v, "Vector3 -="); w = u; w *= s; eq3(w, us, "Vector3 *="); w = u; w += w; eq3(w, u * 2., "Vector3 += itself");
  EQ(dot(u, v), d3(u, v), "Vector3 dot"); EQ(sum(u), u.x + u.y + u.z, "Vector3 sum of components"); EQ(u.norm2(), d3(u, u), "Vector3 norm2"); EQ(norm2(u), d3(u, u), "Vector3 norm2");
  w = cross(u, v); EQ(d3(w, u), 0., "the cross product is orthogonal"); EQ(d3(w, v), 0., "the cross product is orthogonal"); eq3(w, {u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x}, "Vector3 cross"); eq3(cross(v, u), {0 - w.x, 0 - w.y, 0 - w.z}, "the cross product is antisymmetric");
  eq3(Vector3::zero(), {0, 0, 0}, "Vector3::zero"); eq3(Vector3::constant(s), {s, s, s}, "Vector3::constant");
  for (int i = 0; i < 3; i++) { EQ(u[i], i == 0 ? u.x : i == 1 ? u.y : u.z, "Vector3 component access"); w[i] = v[2 - i]; } eq3(w, {v.z, v.y, v.x}, "Vector3 component writes");
  gs_assume(s != 0); eq3(u / s * s, u, "Vector3 over scalar"); w = u; w /= s; eq3(w * s, u, "Vector3 /= scalar");
}
GS_HARNESS(v3norm) {
  gs_mode_real();
  Vector3 u = V3(1, 2, -1); double n = u.norm(), t = D(1.5);
  EQ(n * n, d3(u, u), "norm squares to the sum of squares"); gs_assert(n >= 0, "norm is nonnegative"); EQ(norm(u), n, "norm(v) equals v.norm()");
  gs_assume(d3(u, u) > 0); eq3(u.normalize() * n, u, "normalize() keeps the direction with unit length"); eq3(normalize(u), u.normalize(), "normalize(v)"); eq3(u.unit(), u.normalize(), "unit()"); eq3(unit(u), u.normalize(), "unit(v)");
  eq3(u.normalizeCutoff(), u.normalize(), "normalizeCutoff() with no cutoff normalises a nonzero vector");
  gs_assume(t >= 0); Vector3 c = u.normalizeCutoff(t); eq3(normalizeCutoff(u, t), c, "normalizeCutoff(v, m) equals v.normalizeCutoff(m)");
  if (n <= t) eq3(c, u, "vectors no longer than the cutoff are unchanged"); else eq3(c * n, u, "vectors longer than the cutoff are normalised");
}
GS_HARNESS(v3angle) {
  gs_mode_real();
  Vector3 u = V3(1, 2, -1), v = V3(-3, .5, 2); gs_assume(d3(u, u) > 0); gs_assume(d3(v, v) > 0);
  double a = angle(u, v), n = norm(u) * norm(v); Vector3 k = cross(u, v);
  EQ(cos(a) * n, d3(u, v), "angle(u, v) has the cosine of the angle between u and v"); EQ(sin(a) * sin(a) * n * n, d3(k, k), "angle(u, v) has the sine of the angle between u and v"); gs_assert(sin(a) >= 0, "angle(u, v) lies in [0, pi]");
}
GS_HARNESS(v3order) {
  gs_mode_real();
  Vector3 u = V3(1, 2, 0), v = V3(-3, 4, 1);
  eq3(componentwiseMin(u, v), {u.x < v.x ? u.x : v.x, u.y < v.y ? u.y : v.y, u.z < v.z ? u.z : v.z}, "componentwiseMin"); eq3(componentwiseMax(u, v), {u.x > v.x ? u.x : v.x, u.y > v.y ? u.y : v.y, u.z > v.z ? u.z : v.z}, "componentwiseMax");
}
GS_HARNESS(v3clamp) {
  gs_mode_real();
  Vector3 l = V3(0, 1, -1), h = V3(2, 3, 1), v = V3(-3, 4, 0); for (int i = 0; i < 3; i++) gs_assume(l[i] <= h[i]); Vector3 c = clamp(v, l, h);
  for (int i = 0; i < 3; i++) EQ(c[i], v[i] < l[i] ? l[i] : v[i] > h[i] ? h[i] : v[i], "clamp acts on each component");
}
GS_HARNESS(v3rotate) { // about a coordinate-free axis: Rodrigues' formula
  gs_mode_real();
  Vector3 u = V3(1, 2, -1), k = V3(2, -1, 1); double t = D(.7), c = cos(t), s = sin(t), n = norm(k); gs_assume(d3(k, k) > 0);
  Vector3 x = cross(k, u); gs_assume(d3(x, x) > 0); // not parallel to the axis
  Vector3 r = u.rotateAround(k, t); double kk = n * n;
  eq3(r * kk, u * (c * kk) + x * (s * n) + k * (d3(k, u) * (1 - c)), "rotateAround is the right-handed rotation about the axis (Rodrigues)");
}
GS_HARNESS(v3rotaxis) { gs_mode_real(); Vector3 k = V3(2, -1, 1); double a = D(1.5), t = D(.7); gs_assume(d3(k, k) > 0); eq3((k * a).rotateAround(k, t), k * a, "rotateAround fixes vectors along the axis"); }
GS_HARNESS(v3inplane) {
  gs_mode_real();
  Vector3 u = V3(1, 2, -1), v = V3(-3, .5, 2), n{0, 0, D(2)}; gs_assume(n.z > 0); gs_assume(u.x * u.x + u.y * u.y > 0); gs_assume(v.x * v.x + v.y * v.y > 0);
  double a = angleInPlane(u, v, n), L = sqrt(u.x * u.x + u.y * u.y), M = sqrt(v.x * v.x + v.y * v.y);
  EQ(cos(a) * L * M, u.x * v.x + u.y * v.y, "angleInPlane measures the angle of the projections"); EQ(sin(a) * L * M, u.x * v.y - u.y * v.x, "angleInPlane turns counter-clockwise about the normal");
}
GS_HARNESS(v3inplanegen) {
  gs_mode_real();
  Vector3 n = V3(1, 2, 2), a = V3(3, 0, 1); Vector3 u = cross(n, a), b = cross(n, u); double c = D(1.5), s = D(.5); Vector3 v = u * c + b * s; // u, b orthogonal in the plane, |b| = |n||u|
  gs_assume(d3(u, u) > 0); gs_assume(d3(n, n) > 0); gs_assume(c * c + s * s > 0);
  double g = angleInPlane(u, v, n), h = sqrt(c * c + s * s * d3(n, n)); EQ(cos(g) * h, c, "angleInPlane about any normal"); EQ(sin(g) * h, s * norm(n), "angleInPlane about any normal");
}
GS_HARNESS(v3basis) {
  gs_mode_real();
  Vector3 u = V3(1, 2, -1); gs_assume(d3(u, u) > 0); auto B = u.buildTangentBasis(); double n = norm(u);
  EQ(d3(B[0], B[0]), 1., "tangent basis vectors are unit"); EQ(d3(B[1], B[1]), 1., "tangent basis vectors are unit"); EQ(d3(B[0], B[1]), 0., "tangent basis vectors are orthogonal"); EQ(d3(B[0], u), 0., "tangent basis vectors are tangent"); EQ(d3(B[1], u), 0., "tangent basis vectors are tangent");
  eq3(cross(B[0], B[1]) * n, u, "the tangent basis is right-handed");
  Vector3 v = V3(.5, 1, 3), d = u.normalize(), r = v.removeComponent(d); EQ(d3(r, d), 0., "removeComponent removes the component along the direction"); eq3(v - r, d * d3(v, d), "removeComponent removes only the component along the direction");
}
static Quaternion Q4(double a, double b, double c, double d) { double w = D(a), x = D(b), y = D(c), z = D(d); return Quaternion(w, x, y, z); }
static void eq4(const Quaternion& q, double a, double b, double c, double d, const char* w) { EQ(q.re(), a, w); EQ(q.im().x, b, w); EQ(q.im().y, c, w); EQ(q.im().z, d, w); }
static void eqq(const Quaternion& q, const Quaternion& p, const char* w) { eq4(q, p.re(), p.im().x, p.im().y, p.im().z, w); }
GS_HARNESS(quat) {
  gs_mode_real();
  Quaternion p = Q4(1, 2, -1, .5), q = Q4(.5, -1, 3, 2), r; double s = D(2.5);
  double a = p.re(), b = p.im().x, c = p.im().y, d = p.im().z, e = q.re(), f = q.im().x, g = q.im().y, h = q.im().z;
  for (int i = 0; i < 4; i++) EQ(p[i], i == 0 ? a : i == 1 ? b : i == 2 ? c : d, "quaternion component access");
  eq4(p + q, a + e, b + f, c + g, d + h, "quaternion sum"); eq4(p - q, a - e, b - f, c - g, d - h, "quaternion difference"); eq4(-p, 0 - a, 0 - b, 0 - c, 0 - d, "quaternion negation"); eq4(p * s, a * s, b * s, c * s, d * s, "quaternion scaling"); eqq(s * p, p * s, "quaternion scaling from the left");
  eq4(p * q, a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e, "the quaternion product is Hamilton's");
  r = p; r += q; eqq(r, p + q, "quaternion +="); r = p; r -= q; eqq(r, p - q, "quaternion -="); r = p; r += s; eq4(r, a + s, b, c, d, "quaternion += real"); r = p; r -= s; eq4(r, a - s, b, c, d, "quaternion -= real"); r = p; r *= s; eqq(r, p * s, "quaternion *= real"); r = p; r *= q; eqq(r, p * q, "quaternion *="); r = p; r *= r; eqq(r, p * p, "quaternion *= itself");
  eq4(p.bar(), a, 0 - b, 0 - c, 0 - d, "quaternion conjugate"); eqq(conjugate(p), p.bar(), "quaternion conjugate");
  EQ(p.norm2(), a * a + b * b + c * c + d * d, "quaternion norm2"); EQ(p.norm() * p.norm(), p.norm2(), "quaternion norm"); gs_assert(p.norm() >= 0, "the quaternion norm is nonnegative");
  double M[4][4], x[4] = {e, f, g, h}; p.toMatrix(M); Quaternion pq = p * q; for (int i = 0; i < 4; i++) { double t = 0; for (int j = 0; j < 4; j++) t += M[i][j] * x[j]; EQ(t, pq[i], "toMatrix represents left multiplication"); }
  r = s; eq4(r, s, 0, 0, 0, "assignment of a real"); Vector3 v{b, c, d}; r = v; eq4(r, 0, b, c, d, "assignment of an imaginary vector"); eq4(Quaternion(s), s, 0, 0, 0, "real quaternion"); eq4(Quaternion(v), 0, b, c, d, "imaginary quaternion"); eq4(Quaternion(s, v), s, b, c, d, "quaternion from parts"); eq4(Quaternion(), 0, 0, 0, 0, "default quaternion is zero");
  r.re() = s; r.im() = Vector3{d, c, b}; eq4(r, s, d, c, b, "writing the parts"); r[2] = a; EQ(r.im().y, a, "writing a component");
  gs_assume(p.norm2() > 0); eq4(p * p.inv(), 1, 0, 0, 0, "inv() is the inverse"); eq4(p.inv() * p, 1, 0, 0, 0, "inv() is the inverse"); eqq(p.unit() * p.norm(), p, "unit() keeps the direction with unit length"); r = p; r.normalize(); eqq(r, p.unit(), "normalize()");
  gs_assume(s != 0); eqq(p / s * s, p, "quaternion over real"); r = p; r /= s; eqq(r * s, p, "quaternion /= real");
}
// -------------------------------------------------------------- elementary geometry
GS_HARNESS(area) {
  gs_mode_real();
  double a = D(3), b = D(4), c = D(4.5), t = D(.25); gs_assume(a > 0); gs_assume(b > 0); gs_assume(c > 0);
  double A = triangleArea(a, b, c), H = (a + b + c) * (b + c - a) * (c + a - b) * (a + b - c);
  gs_assert(triangleIsValid(a, b, c, t) == (a + b >= c - t && b + c >= a - t && c + a >= b - t), "triangleIsValid tests the three inequalities up to the tolerance");
  gs_assert(triangleIsValid(a, b, c) == (a + b >= c && b + c >= a && c + a >= b), "triangleIsValid tests the three inequalities"); gs_assert(A >= 0, "areas are nonnegative");
  if (H >= 0) EQ(16 * A * A, H, "triangleArea satisfies Heron's formula"); else EQ(A, 0., "triangleArea is 0 when the lengths violate the triangle inequality");
}
GS_HARNESS(layout) {
  gs_mode_real();
  Vector2 A = V2(1, 2), B = V2(4, 3); double bc = D(4), ca = D(4.5), ab = norm(B - A); gs_assume(d2(B - A, B - A) > 0); gs_assume(bc > 0); gs_assume(ca > 0); 
  gs_assume(ab + bc > ca); gs_assume(bc + ca > ab); gs_assume(ca + ab > bc);
  Vector2 C = layoutTriangleVertex(A, B, bc, ca); EQ(norm2(C - A), ca * ca, "the laid out vertex realises length CA"); EQ(norm2(C - B), bc * bc, "the laid out vertex realises length BC"); gs_assert(cross(B - A, C - A) > 0, "the laid out triangle is counter-clockwise");
}
template <class V> static void nearest(V p, V a, V b, double d, int three) { // d is the distance from p to the segment ab
  V e = b - a; double L = norm2(e), s = dot(p - a, e);
  gs_assert(d >= 0, "distances are nonnegative");
  if (three == 2 || s < 0) EQ(d * d, norm2(p - a), "nearest point is the first end point");
  else if (s > L) EQ(d * d, norm2(p - b), "nearest point is the second end point");
  else EQ(d * d * L, norm2(p - a) * L - s * s, "nearest point inside the segment: distance to the line");
}
GS_HARNESS(segdist2) { gs_mode_real(); Vector2 p = V2(1, 2), a = V2(0, 0), b = V2(4, 1); gs_assume(norm2(b - a) > 0); nearest(p, a, b, pointLineSegmentDistance(p, a, b), 0); }
GS_HARNESS(segdist2deg) { gs_mode_real(); Vector2 p = V2(1, 2), a = V2(0, 0); nearest(p, a, a, pointLineSegmentDistance(p, a, a), 2); Vector3 q = V3(1, 2, 3), c = V3(0, 0, 0); nearest(q, c, c, pointLineSegmentDistance(q, c, c), 2); EQ(pointLineSegmentNeaestLocation(q, c, c), 0., "on a degenerate segment the nearest location is 0"); }
GS_HARNESS(segdist3) {
  gs_mode_real(); Vector3 p = V3(1, 2, 3), a = V3(0, 0, 0), b = V3(4, 1, 1); gs_assume(norm2(b - a) > 0); nearest(p, a, b, pointLineSegmentDistance(p, a, b), 1);
  double t = pointLineSegmentNeaestLocation(p, a, b), L = norm2(b - a), s = dot(p - a, b - a); EQ(t * L, s < 0 ? 0. : s > L ? L : s, "nearest location along the segment");
}
GS_HARNESS(raysegment) {
  gs_mode_real(); Vector2 o = V2(0, 0), d = V2(1, .25), a = V2(4, -1), b = V2(3, 5); gs_assume(cross(d, b - a) != 0);
  auto r = raySegmentIntersection(o, d, a, b); eq2(o + d * r.tRay, a + (b - a) * r.tLine, "raySegmentIntersection gives the common point"); Vector2 e = b - a;
  auto q = rayRayIntersection(o, d, a, e); eq2(o + d * q.tRay1, a + e * q.tRay2, "rayRayIntersection gives the common point");
}
GS_HARNESS(segsegment) {
  gs_mode_real(); Vector2 p = V2(0, 0), q = V2(5, 1), a = V2(4, -1), b = V2(3, 5); gs_assume(cross(q - p, b - a) != 0); gs_assume(norm2(q - p) > 0);
  auto r = segmentSegmentIntersection(p, q, a, b); eq2(p + (q - p) * r.tA, a + (b - a) * r.tB, "segmentSegmentIntersection gives the common point of the lines");
  gs_assert(r.hit == (r.tA >= 0 && r.tA <= 1 && r.tB >= 0 && r.tB <= 1), "segments hit exactly when the common point lies on both");
}
GS_HARNESS(incircle) { // q given in barycentric-like terms: on the circle through a, b, c, scaled towards or away from its centre at the origin
  gs_mode_real(); Vector2 a = V2(1, 2), b = V2(-1, .5), c = V2(0, -2), q = V2(.3, .2); double k = cross(b - a, c - a); gs_assume(k > 0);
  // determinant of the lifted points relative to q
  Vector2 A = a - q, B = b - q, C = c - q; double det = norm2(A) * cross(B, C) + norm2(B) * cross(C, A) + norm2(C) * cross(A, B);
  gs_assert(inCircleTest(a, b, c, q) == (det > 0), "inCircleTest holds exactly inside the circumcircle of a counter-clockwise triangle");
}
GS_HARNESS(incircleunit) { gs_mode_real(); double r = D(2); gs_assume(r > 0); Vector2 c = V2(1, 2), q = V2(.3, .2); Vector2 a{c.x + r, c.y}, b{c.x, c.y + r}, d{c.x - r, c.y}; gs_assert(inCircleTest(a, b, d, q) == (norm2(q - c) < r * r), "inCircleTest compares with the radius"); }
GS_HARNESS(tet) {
  gs_mode_real(); Vector3 a{0, 0, 0}, b{D(2), 0, 0}, c{D(.5), D(1.5), 0}; gs_assume(b.x > 0); gs_assume(c.y > 0);
  double x = D(.3), y = D(.4), z = D(1.2); gs_assume(z > 0); Vector3 p{x, y, z}; // some apex: its distances are realisable
  Vector3 d = tetFourthPoint(a, b, c, norm(p - a), norm(p - b), norm(p - c));
  eq3(d, {x, y, -z}, "tetFourthPoint realises the three lengths on the positive side (a, b, c counter-clockwise seen from the opposite side of d)");
}
GS_HARNESS(tetgen) { // a rotated frame and any origin
  gs_mode_real(); Vector3 o = V3(1, 0, 2), e1{2, 1, 2}, e2{1, 2, -2}, e3{-2, 2, 1}; double X = D(2), U = D(.5), V = D(1.5); gs_assume(X > 0); gs_assume(V > 0);
  double x = D(.3), y = D(.4), z = D(1.2); gs_assume(z > 0); Vector3 a = o, b = o + e1 * X, c = o + e1 * U + e2 * V, p = o + e1 * x + e2 * y + e3 * z, d = tetFourthPoint(a, b, c, norm(p - a), norm(p - b), norm(p - c));
  eq3(d, o + e1 * x + e2 * y - e3 * z, "tetFourthPoint realises the three lengths on the positive side in any frame");
}
GS_HARNESS(angles) {
  gs_mode_real(); double t = D(7), r = regularizeAngle(t), n = std::floor(t / (2 * PI));
  gs_assert(r >= 0 && r < 2 * PI, "regularizeAngle lies in [0, 2 pi)"); EQ(r + 2 * PI * n, t, "regularizeAngle changes the angle by a multiple of 2 pi");
  double v = D(1), l = D(0), h = D(2); gs_assume(l <= h); double c = clamp(v, l, h); EQ(c, v < l ? l : v > h ? h : v, "clamp");
}
GS_HARNESS(perm) {
  size_t n = gs_choose("n", 4) + 1, m = gs_choose("m", 4) + 1; std::vector<uint64_t> src; for (size_t i = 0; i < n; i++) src.push_back(gs_u64("v")); std::vector<size_t> p; for (size_t i = 0; i < m; i++) { uint64_t k = gs_range("p", 0, n); p.push_back(k == n ? INVALID_IND : k); }
  auto out = applyPermutation(src, p); gs_assert(out.size() == m, "applyPermutation returns one value per permutation entry"); for (size_t i = 0; i < m; i++) if (p[i] != INVALID_IND) gs_assert(out[i] == src[p[i]], "applyPermutation: output i is source p[i]");
}
GS_HARNESS(erase) {
  size_t n = gs_choose("n", 5); std::vector<uint64_t> v, w; uint64_t x = gs_u64("x"); for (size_t i = 0; i < n; i++) { v.push_back(gs_u64("v")); if (v.back() != x) w.push_back(v.back()); }
  removeFromVector(v, x); gs_assert(v.size() == w.size(), "removeFromVector removes exactly the equal entries"); for (size_t i = 0; i < w.size(); i++) gs_assert(v[i] == w[i], "removeFromVector keeps the other entries in order");
}

// -------------------------------------------------------------- Hermite curves (the value type only needs + - * and zero())
#include "geometrycentral/utilities/curve.h"
static double gs_t(double lo, double hi) { double t = D(lo + .25); gs_assume(t >= lo); gs_assume(t <= hi); return t; }
static HermiteCurve<Vector2> hermite(size_t n) { HermiteCurve<Vector2> c; for (size_t i = 0; i < n; i++) { Vector2 p = V2(i, i * i), d = V2(1, 2. * i); c.addNode(p, d); } return c; }
static void curve(size_t n) {
  gs_mode_real(); auto c = hermite(n); EQ(c.length(), n ? n - 1. : 0., "a curve with N nodes has length N-1"); gs_assert(c.nodes.size() == n, "addNode appends a node");
  if (n == 1) { double t = D(3); eq2(c(t), c.nodes[0].value + c.nodes[0].derivative * t, "a single node gives an affine curve"); eq2(c(t, 1), c.nodes[0].derivative, "a single node gives an affine curve"); eq2(c(t, 2), {0, 0}, "a single node gives an affine curve"); return; }
  double t = gs_t(0, n - 1.); size_t i = 0; while (i + 2 < n && t >= i + 1.) i++; double u = t - i, w = 1 - u; auto &a = c.nodes[i], &b = c.nodes[i + 1];
  // Bernstein form of the same cubic
  Vector2 b0 = a.value, b1 = a.value + a.derivative / 3., b2 = b.value - b.derivative / 3., b3 = b.value;
  eq2(c(t) * 3., (b0 * (w * w * w) + b3 * (u * u * u)) * 3. + (a.value * 3. + a.derivative) * (3 * w * w * u) + (b.value * 3. - b.derivative) * (3 * w * u * u), "the curve is the cubic Hermite interpolant of its segment"); eq2(c.value(t), c(t), "value(t) equals operator()");
  Vector2 d1 = (b.value * 3. - b.derivative - a.value * 3. - a.derivative); // 3 (b2 - b1)
  eq2(c(t, 1), a.derivative * (w * w) + d1 * (2 * w * u) + b.derivative * (u * u), "first derivative"); eq2(c(t, 2), (d1 - a.derivative) * (2 * w) + (b.derivative - d1) * (2 * u), "second derivative"); eq2(c(t, 3), (b.derivative - d1 * 2. + a.derivative) * 2., "third derivative"); eq2(c(t, 4), {0, 0}, "fourth derivative"); eq2(c(t, 0), c(t), "zeroth derivative");
  for (size_t k = 0; k < n; k++) { eq2(c(k), c.nodes[k].value, "the curve interpolates its nodes"); eq2(c(k, 1), c.nodes[k].derivative, "the curve interpolates its derivatives"); }
}
#define C(n) GS_HARNESS(curve##n) { curve(n); }
C(1) C(2) C(3) C(4)
GS_HARNESS(curve0) { HermiteCurve<Vector2> c; gs_assert(c.length() == 0, "a curve with no nodes has no length"); Vector2 v = c(.5); gs_assert(v == Vector2::zero(), "a curve with no nodes is constant"); }
