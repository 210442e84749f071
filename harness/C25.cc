// C25: Point algebra against component-wise vector algebra.
#include "Point.hh"
#include "vk.hh"
using JaliGeometry::Point;
struct M { int d; double v[3]; };            // the mathematical vector
static std::string ms(M const& m) { std::ostringstream o; o.precision(17); o << "d" << m.d << "("; for (int i = 0; i < m.d; i++) o << (i ? "," : "") << m.v[i]; o << ")"; return o.str(); }
static std::string ps(Point const& p) { M m; m.d = p.dim(); for (int i = 0; i < 3; i++) m.v[i] = i < m.d ? p[i] : 0; return ms(m); }
static bool same(Point const& p, M const& m, char const* what, bool exact = true) {
  vk::cmp();
  bool ok = p.dim() == m.d;
  for (int i = 0; ok && i < m.d; i++) ok = exact ? p[i] == m.v[i] : vk::near(p[i], m.v[i], 0);
  if (ok && m.d > 0) { double w[3] = {m.v[0], m.d > 1 ? m.v[1] : 0, m.d > 2 ? m.v[2] : 0}; double g[3] = {p.x(), p.y(), p.z()};
    for (int i = 0; i < 3; i++) ok = ok && (exact ? g[i] == w[i] : vk::near(g[i], w[i], 0)); }
  if (!ok) vk::fail(what, "got " + ps(p) + " expected " + ms(m));
  return ok;
}
static M mk(int d, double const* v) { M m; m.d = d; for (int i = 0; i < 3; i++) m.v[i] = i < d ? v[i] : 0; return m; }
static Point build(M const& m, int how) {   // every way to make a point
  if (m.d == 0) return Point();
  if (how == 0) { if (m.d == 1) { Point p(1); p.set(m.v[0]); return p; } return m.d == 2 ? Point(m.v[0], m.v[1]) : Point(m.v[0], m.v[1], m.v[2]); }
  if (how == 1) { Point p(m.d); for (int i = 0; i < m.d; i++) p[i] = m.v[i]; return p; }
  if (how == 2) { Point p(7.0, 8.0, 9.0); p.set(m.d, m.v); return p; }
  if (how == 3) { Point p(m.d); p.set(m.v); return p; }
  Point q; q.set(m.d, m.v);
  if (how == 4) { Point p(q); return p; }
  if (how == 5) { Point p(-1.0, -2.0); p = q; return p; }
  Point p; p.set(q); return p;
}
static std::vector<std::vector<double>> vals(int d) {
  static const double S[] = {0, 1, -2, 0.5, -0.75, 1024};
  int n = vk::thorough ? 6 : 5; std::vector<std::vector<double>> r; int t = 1; for (int i = 0; i < d; i++) t *= n;
  for (int k = 0; k < t; k++) { std::vector<double> v(3, 0.0); int q = k; for (int i = 0; i < d; i++) { v[i] = S[q % n]; q /= n; } r.push_back(v); }
  return r;
}
// ------------------------------------------------------------ histories on two registers
struct R2 { M a[2]; };
static const int NOP = 37;
static char const* opname(int k) { static char const* n[] = {"a=b","a=a","b=a","a+=b","a-=b","a+=a","a-=a","a*=2","a/=4","a=-a","a=a+b","a=a-b","a=0.5*a","a=a*3","a=a/2","a=a^b","a.set(5)","a.set(1,2)","a.set(3,4,5)","a.set(b)","a.set(1,v)","a.set(2,v)","a.set(3,v)","a.set(v)","a=Point(1)","a=Point(2)","a=Point(3)","a[last]=9","a=Point(b)","swap","a*=a[0]","a/=a[last]","a.set(a[last])","a.set(a[1],a[0])","a.set(a[2],a[0],a[1])","a=a[0]*a","a/=a[0]"}; return n[k]; }
static bool enabled(R2 const& s, int k) {
  bool same = s.a[0].d == s.a[1].d, nz = s.a[0].d > 0;
  if (k == 3 || k == 4 || k == 10 || k == 11 || k == 15) return same && nz;
  if (k == 15) return same && s.a[0].d > 1;
  if (k == 5 || k == 6 || k == 7 || k == 8 || k == 9 || k == 12 || k == 13 || k == 14 || k == 16 || k == 23 || k == 27) return nz;
  if (k == 30 || k == 32 || k == 35) return nz;
  if (k == 31 || k == 36) { double x = s.a[0].v[k == 36 ? 0 : s.a[0].d - 1]; int e; return nz && x != 0 && std::frexp(std::fabs(x), &e) == 0.5; }   // exact quotients only
  if (k == 33) return s.a[0].d == 2;
  if (k == 34) return s.a[0].d == 3;
  return true;
}
static const double VV[3] = {-1.5, 2.5, 6};
static void mstep(R2& s, int k) {
  M& a = s.a[0]; M& b = s.a[1]; M o = a;
  auto each = [&](std::function<double(int)> f) { for (int i = 0; i < a.d; i++) a.v[i] = f(i); };
  switch (k) {
    case 0: case 19: case 28: a = b; break; case 1: break; case 2: b = a; break;
    case 3: case 10: each([&](int i) { return o.v[i] + b.v[i]; }); break;
    case 4: case 11: each([&](int i) { return o.v[i] - b.v[i]; }); break;
    case 5: each([&](int i) { return o.v[i] + o.v[i]; }); break; case 6: each([&](int) { return 0.0; }); break;
    case 7: each([&](int i) { return o.v[i] * 2; }); break; case 8: each([&](int i) { return o.v[i] / 4; }); break;
    case 9: each([&](int i) { return -o.v[i]; }); break; case 12: each([&](int i) { return o.v[i] * 0.5; }); break;
    case 13: each([&](int i) { return o.v[i] * 3; }); break; case 14: each([&](int i) { return o.v[i] / 2; }); break;
    case 15: { if (a.d == 3) for (int i = 0; i < 3; i++) a.v[i] = o.v[(i+1)%3] * b.v[(i+2)%3] - o.v[(i+2)%3] * b.v[(i+1)%3]; else if (a.d == 2) { a.v[0] = o.v[0]*b.v[1] - o.v[1]*b.v[0]; a.v[1] = 0; } else each([&](int) { return 0.0; }); break; }
    case 16: each([&](int) { return 5.0; }); break;
    case 17: a = M{2, {1, 2, 0}}; break; case 18: a = M{3, {3, 4, 5}}; break;
    case 20: a = mk(1, VV); break; case 21: a = mk(2, VV); break; case 22: a = mk(3, VV); break; case 23: a = mk(a.d, VV); break;
    case 24: case 25: case 26: { double z[3] = {0, 0, 0}; a = mk(k - 23, z); break; }
    case 27: a.v[a.d - 1] = 9; break; case 29: std::swap(a, b); break;
    // the number given is a coordinate of the point itself
    case 30: case 35: each([&](int i) { return o.v[i] * o.v[0]; }); break; case 31: each([&](int i) { return o.v[i] / o.v[o.d - 1]; }); break; case 36: each([&](int i) { return o.v[i] / o.v[0]; }); break;
    case 32: each([&](int) { return o.v[o.d - 1]; }); break; case 33: a = M{2, {o.v[1], o.v[0], 0}}; break; case 34: a = M{3, {o.v[2], o.v[0], o.v[1]}}; break;
  }
}
static void rstep(Point& a, Point& b, int k) {
  switch (k) {
    case 0: a = b; break; case 1: { Point& r = a; a = r; break; } case 2: b = a; break; case 3: a += b; break; case 4: a -= b; break;
    case 5: { Point& r = a; a += r; break; } case 6: { Point& r = a; a -= r; break; } case 7: a *= 2; break; case 8: a /= 4; break; case 9: a = -a; break;
    case 10: a = a + b; break; case 11: a = a - b; break; case 12: a = 0.5 * a; break; case 13: a = a * 3.0; break; case 14: a = a / 2; break; case 15: a = a ^ b; break;
    case 16: a.set(5.0); break; case 17: a.set(1, 2.0); break; case 18: a.set(3, 4, 5); break; case 19: a.set(b); break;
    case 20: case 21: case 22: a.set(k - 19, VV); break; case 23: a.set(VV); break;
    case 24: case 25: case 26: a = Point(k - 23); break; case 27: a[a.dim() - 1] = 9; break; case 28: { Point c(b); a = c; break; }
    case 29: { Point t(a); a = b; b = t; break; }
    case 30: a *= a[0]; break; case 31: a /= a[a.dim() - 1]; break; case 32: a.set(a[a.dim() - 1]); break; case 33: a.set(a[1], a[0]); break; case 34: a.set(a[2], a[0], a[1]); break; case 35: a = a[0] * a; break; case 36: a /= a[0]; break;
  }
}
VK_CHECK("C25", "exploration", "all pairs of vectors over {0,1,-2,.5,-.75,(1024)}^d, d=1..3, through every operator and constructor, also scaled by 2^-40 and 2^60; all operation histories on two registers up to the depth over 37 operations") {
  for (int d = 1; d <= 3; d++) {
    auto V = vals(d);
    for (size_t i = 0; i < V.size(); i++) vk::run("d" + std::to_string(d) + " p=" + vk::str(V[i]), [&, i, d] { static const double SC[4][2] = {{1, 1}, {1.0 / (1LL << 40), 1.0 / (1LL << 40)}, {(double)(1LL << 60), (double)(1LL << 60)}, {1.0 / (1LL << 40), (double)(1LL << 60)}}; for (auto& sc : SC) {
      M m = mk(d, V[i].data()); for (double& x : m.v) x *= sc[0];
      for (int h = 0; h < 7; h++) same(build(m, h), m, "construction");
      for (auto& w : V) {
        M n = mk(d, w.data()); for (double& x : n.v) x *= sc[1]; Point p = build(m, 0), q = build(n, 0);
        const Point p0(p), q0(q); M r = m;
        for (int k = 0; k < d; k++) r.v[k] = m.v[k] + n.v[k]; same(p0 + q0, r, "p+q"); { Point t(p); t += q0; same(t, r, "p+=q"); Point t2(p); same(t2 += q0, r, "value of p+=q"); }
        for (int k = 0; k < d; k++) r.v[k] = m.v[k] - n.v[k]; same(p0 - q0, r, "p-q"); { Point t(p); t -= q0; same(t, r, "p-=q"); }
        double dt = 0; for (int k = 0; k < d; k++) dt += m.v[k] * n.v[k];
        vk::eq(p0 * q0, dt, "dot product"); vk::eq(q0 * p0, dt, "dot product commutes");
        if (d == 3) { for (int k = 0; k < 3; k++) r.v[k] = m.v[(k+1)%3] * n.v[(k+2)%3] - m.v[(k+2)%3] * n.v[(k+1)%3]; same(p0 ^ q0, r, "cross product"); }
        if (d == 2) { Point c = p0 ^ q0; vk::eq(c[0], m.v[0] * n.v[1] - m.v[1] * n.v[0], "2D cross product"); vk::eq(c.dim(), 2, "dimension of 2D cross product"); vk::eq(c[1], 0.0, "second component of 2D cross product"); }
        vk::feq(norm(p0 - q0), std::sqrt([&] { double s = 0; for (int k = 0; k < d; k++) s += (m.v[k]-n.v[k])*(m.v[k]-n.v[k]); return s; }()), "distance", "", 0);
        same(p0, m, "left operand unchanged"); same(q0, n, "right operand unchanged");
      }
      Point p = build(m, 0); const Point p0(p); M r = m; double s2 = 0; for (int k = 0; k < d; k++) s2 += m.v[k] * m.v[k];
      vk::eq(L22(p0), s2, "L22"); vk::feq(norm(p0), std::sqrt(s2), "norm", "", 0);
      for (int k = 0; k < d; k++) r.v[k] = -m.v[k]; same(-p0, r, "negation");
      for (double c : {0.0, 1.0, -3.0, 0.25, 7.0}) {
        for (int k = 0; k < d; k++) r.v[k] = c * m.v[k]; same(c * p0, r, "c*p"); same(p0 * c, r, "p*c"); { Point t(p); t *= c; same(t, r, "p*=c"); }
        if (c != 0) { for (int k = 0; k < d; k++) r.v[k] = m.v[k] / c; same(p0 / c, r, "p/c", false); Point t(p); t /= c; same(t, r, "p/=c", false); }
      }
      same(p0, m, "operand unchanged"); vk::eq(Point(p0).is_valid(), 1, "is_valid");
      std::ostringstream o, w; o << p0; for (int k = 0; k < d; k++) w << (k ? " " : "") << m.v[k]; vk::eq(o.str(), w.str(), "printed form"); }
    });
  }
  vk::run("invalid", [] { vk::eq(Point().is_valid(), 0, "is_valid of default point"); vk::eq(Point().dim(), 0, "dim"); vk::eq(Point(4).is_valid(), 0, "is_valid of 4D"); });
  // histories
  int depth = vk::thorough ? 6 : 4;
  std::vector<R2> init;
  for (int d1 = 0; d1 <= 3; d1++) for (int d2 = 0; d2 <= 3; d2++) { double x[3] = {1, -2, 4}, y[3] = {0.5, 3, -8}; R2 s; s.a[0] = mk(d1, x); s.a[1] = mk(d2, y); init.push_back(s); }
  for (size_t i = 0; i < init.size(); i++) for (int k0 = 0; k0 < NOP; k0++) {
    if (!enabled(init[i], k0)) continue;
    vk::run("history d" + std::to_string(init[i].a[0].d) + ",d" + std::to_string(init[i].a[1].d) + " " + opname(k0), [&, i, k0] {
      std::vector<int> h; bool bad = false;
      std::function<void(R2, Point, Point)> go = [&](R2 s, Point a, Point b) {
        for (int k = 0; k < NOP && !bad; k++) {
          if (h.empty() && k != k0) continue;
          if (!enabled(s, k)) continue;
          R2 t = s; mstep(t, k); Point a2(a), b2(b); rstep(a2, b2, k); vk::transitions();
          h.push_back(k);
          if (!same(a2, t.a[0], "first register after history") || !same(b2, t.a[1], "second register after history")) { std::string hs; for (int x : h) hs += std::string(opname(x)) + "; "; vk::sample("failing history " + hs); bad = true; }
          else if ((int)h.size() < depth) go(t, a2, b2);
          h.pop_back();
        }
      };
      go(init[i], build(init[i].a[0], 2), build(init[i].a[1], 2));
    });
  }
}
