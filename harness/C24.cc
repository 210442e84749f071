// C24: polygon, polyhedron and segment measures and point tests, against
// exact integer geometry over enumerated shapes.
#include "refmesh.hh"
#include "hull.hh"
using namespace ref;
typedef std::array<int, 2> I2;
static long cr(I2 a, I2 b, I2 c) { return (long)(b[0]-a[0])*(c[1]-a[1]) - (long)(b[1]-a[1])*(c[0]-a[0]); }
struct T2 { char const* n; double a, b, c, d, x, y; };
static const T2 maps2[] = {{"id",1,0,0,1,0,0}, {"rot",0,-1,1,0,3,-5}, {"shear",2,0.5,0.25,1,-7,2}, {"tiny",1e-3,0,0,1e-3,0.5,0.25}, {"turn",0.6,-0.8,0.8,0.6,1,1}, {"far",1,0,0,1,1000,-2000}, {"micro",(1.0/16777216),0,0,(1.0/16777216),0,0}, {"huge",1048576.0,0,0,1048576.0,0,0}};
struct T3 { char const* n; double u[3], v[3], o[3]; };
static const T3 planes[] = {{"xy",{1,0,0},{0,1,0},{0,0,0}}, {"xz",{1,0,0},{0,0,1},{1,2,3}}, {"yz",{0,1,0},{0,0,1},{-4,0,0}}, {"tilt",{1,0,1},{0,1,0},{0,0,5}}, {"skew",{0.5,0.5,0},{-0.5,0.5,1},{10,20,30}}, {"neg",{-1,0,0},{0,1,0},{0,0,-2}}, {"small",{1e-3,0,1e-3},{0,1e-3,0},{0.25,0,0}}, {"micro",{(1.0/1048576),0,(1.0/1048576)},{0,(1.0/1048576),0},{0,0,0}}, {"huge",{1048576.0,0,0},{0,1048576.0,1048576.0},{0,0,0}}};
static const double sizes[] = {1, (1.0/16777216), 1048576.0};   // exact scalings for the point tests
// where the corners of a polygon in a plane lie, times how large it is
static double span(T3 const& t, double* where = 0) { double o = 0, e = 0; for (int k = 0; k < 3; k++) { o += std::fabs(t.o[k]); e += std::fabs(t.u[k]) + std::fabs(t.v[k]); } if (where) *where = o + 4 * e; return (o + 4 * e) * 4 * e; }

// exact area2 and 6*area*centroid
static void exact(std::vector<I2> const& p, double* area, double* cx, double* cy) {
  long A = 0, X = 0, Y = 0; int n = p.size();
  for (int i = 0; i < n; i++) { I2 a = p[i], b = p[(i+1)%n]; long t = (long)a[0]*b[1] - (long)b[0]*a[1]; A += t; X += t*(a[0]+b[0]); Y += t*(a[1]+b[1]); }
  *area = 0.5 * A; *cx = X / (3.0 * A); *cy = Y / (3.0 * A);
}
static void polygon(std::vector<I2> const& ccw) {
  int n = ccw.size(); double A, cx, cy; exact(ccw, &A, &cx, &cy);
  for (int rev = 0; rev < 2; rev++) for (int st = 0; st < n; st++) {
    std::vector<I2> p; for (int i = 0; i < n; i++) p.push_back(ccw[rev ? (st - i + n) % n : (st + i) % n]);
    for (auto& t : maps2) {
      std::vector<Point> c; for (auto& q : p) c.push_back(Point(t.a*q[0] + t.b*q[1] + t.x, t.c*q[0] + t.d*q[1] + t.y));
      double det = t.a*t.d - t.b*t.c, want = A * det; if (rev) want = -want;
      double scl = std::fabs(t.a) + std::fabs(t.b) + std::fabs(t.c) + std::fabs(t.d); double pos = std::fabs(t.x) + std::fabs(t.y) + 4 * scl;
      double area = 77; Point cen(2), nrm(2); cen.set(5.0); nrm.set(-3.0);
      JaliGeometry::polygon_get_area_centroid_normal(c, &area, &cen, &nrm);
      std::string cx_ = std::string(t.n) + " start " + vk::str(st) + (rev ? " cw" : " ccw");
      // scale of the tolerance: coordinates of size pos -> products of size pos*extent
      double tol = 1e-9 * std::max(std::fabs(want), 0.0) + 1e-12 * pos * scl * 4;
      vk::cmp(3);
      if (std::fabs(area - want) > tol) vk::fail(rev ? "area of inverted polygon" : "area of polygon", cx_ + " got " + vk::str(area) + " expected " + vk::str(want));
      peq(cen, P(t.a*cx + t.b*cy + t.x, t.c*cx + t.d*cy + t.y), 2, "centroid of polygon", cx_, pos * 1e-2);
      if (std::fabs(nrm[0] - (rev ? want : want)) > tol || nrm.dim() != 2) vk::fail("normal of polygon in the plane", cx_ + " got " + ps(nrm) + " expected " + vk::str(want));
    }
    for (auto& t : planes) {
      auto at = [&](double a, double b) { return P(t.u[0]*a + t.v[0]*b + t.o[0], t.u[1]*a + t.v[1]*b + t.o[1], t.u[2]*a + t.v[2]*b + t.o[2]); };
      std::vector<Point> c; for (auto& q : p) c.push_back(pt(at(q[0], q[1]), 3));
      V3 N = cross(P(t.u[0], t.u[1], t.u[2]), P(t.v[0], t.v[1], t.v[2])); N = (rev ? -A : A) * N; double want = len(N);
      double area = -7; Point cen(3), nrm(3); cen.set(5.0); nrm.set(-3.0);
      JaliGeometry::polygon_get_area_centroid_normal(c, &area, &cen, &nrm);
      std::string cx_ = std::string(t.n) + " start " + vk::str(st) + (rev ? " cw" : " ccw");
      double sc = want;
      vk::feq(area, want, "area of polygon in space", cx_, sc);
      double where; double fl = span(t, &where); peq(cen, at(cx, cy), 3, "centroid of polygon in space", cx_, where);
      for (int k = 0; k < 3; k++) { vk::cmp(); if (std::fabs(nrm[k] - N[k]) > 1e-9 * want + 1e-14 * fl) { vk::fail("normal of polygon in space", cx_ + " got " + ps(nrm) + " expected " + ps(pt(N, 3))); break; } }
    }
    // point tests in quarter lattice steps, strictly inside / outside only
    int bx[4] = {0, 4, 0, 4}; for (auto& q : ccw) { bx[0] = std::min(bx[0], q[0]); bx[1] = std::max(bx[1], q[0]); bx[2] = std::min(bx[2], q[1]); bx[3] = std::max(bx[3], q[1]); }
    int st4 = bx[1] - bx[0] > 8 ? 3 : 1;
    for (int yy = 4 * bx[2] - 2; yy <= 4 * bx[3] + 2; yy += st4) for (int xx = 4 * bx[0] - 2; xx <= 4 * bx[1] + 2; xx += st4) {
      bool in = true, on = false, out = false;
      for (int i = 0; i < n; i++) { I2 a = ccw[i], b = ccw[(i+1)%n]; long s = (long)(b[0]-a[0])*(yy-4*a[1]) - (long)(b[1]-a[1])*(xx-4*a[0]); if (s < 0) out = true; if (s == 0) on = true; }
      if (out) in = false; else if (on) continue;
      for (double z : sizes) { if (z != 1 && st) break;
      std::vector<Point> c; for (auto& q : p) c.push_back(Point(z*q[0], z*q[1]));
      vk::cmp();
      if (JaliGeometry::point_in_polygon(Point(z*xx/4.0, z*yy/4.0), c) != in) vk::fail(in ? "inner point reported outside polygon" : "outer point reported inside polygon", "(" + vk::str(xx/4.0) + "," + vk::str(yy/4.0) + ") size " + vk::str(z) + " start " + vk::str(st) + (rev ? " cw" : " ccw"));
      }
    }
  }
}
// all convex polygons on a g x g lattice, weak = straight angles allowed
static void polygons(int g, int maxn, bool weak) {
  std::vector<I2> L; for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) L.push_back(I2{{i, j}});
  std::vector<I2> p;
  std::function<void()> go = [&] {
    int n = p.size();
    if (n >= 3) {
      // closing
      long s1 = cr(p[n-2], p[n-1], p[0]), s2 = cr(p[n-1], p[0], p[1]); bool cv = weak ? s1 >= 0 && s2 >= 0 : s1 > 0 && s2 > 0;
      // all points on the left of the closing edge, no point beyond
      if (cv) {
        bool ok = true, flat = false; long A = 0; for (int i = 0; i < n && ok; i++) { I2 a = p[i], b = p[(i+1)%n]; A += (long)a[0]*b[1] - (long)b[0]*a[1]; for (auto& q : p) if (cr(a, b, q) < 0) ok = false; if (cr(p[(i+n-1)%n], a, b) == 0) { flat = true; if ((long)(b[0]-a[0])*(a[0]-p[(i+n-1)%n][0]) + (long)(b[1]-a[1])*(a[1]-p[(i+n-1)%n][1]) <= 0) ok = false; } }
        if (ok && A > 0 && weak == flat) { std::string nm = weak ? "weak" : "poly"; for (auto& q : p) nm += "(" + std::to_string(q[0]) + "," + std::to_string(q[1]) + ")"; auto pp = p; vk::run(nm, [pp] { polygon(pp); }); }
      }
    }
    if (n == maxn) return;
    for (auto& q : L) {
      if (n && !(p[0] < q)) continue;                     // lexicographically least first
      if (std::find(p.begin(), p.end(), q) != p.end()) continue;
      if (n >= 2) { long s = cr(p[n-2], p[n-1], q); if (weak ? s < 0 : s <= 0) continue; bool left = true; for (int i = 0; i + 1 < n && left; i++) if (cr(p[i], p[i+1], q) < 0) left = false; if (!left) continue; }
      p.push_back(q); go(); p.pop_back();
    }
  };
  go();
}
struct A3 { char const* n; double a[3][3], b[3]; };
static const A3 maps3[] = {{"id",{{1,0,0},{0,1,0},{0,0,1}},{0,0,0}}, {"shear",{{2,0.5,0},{0.25,1,0.5},{0,-0.5,1}},{-3,5,100}}, {"perm",{{0,0,1},{1,0,0},{0,1,0}},{-1,-2,4}}, {"small",{{1e-3,0,0},{0,1e-3,0},{0,0,1e-3}},{0.5,-0.25,0}}, {"micro",{{(1.0/65536),0,0},{0,(1.0/65536),0},{0,0,(1.0/65536)}},{0,0,0}}, {"huge",{{65536.0,0,0},{0,65536.0,0},{0,0,65536.0}},{0,0,0}}};
static V3 ap(A3 const& t, V3 x) { V3 r; for (int i = 0; i < 3; i++) { r[i] = t.b[i]; for (int j = 0; j < 3; j++) r[i] += t.a[i][j]*x[j]; } return r; }
static void polyhed(hull::Hull const& h) {
  hull::I3 m; long v6 = hull::vol6(h, &m); double V = v6 / 6.0; V3 C = P(m[0]/(4.0*v6), m[1]/(4.0*v6), m[2]/(4.0*v6));
  int nf = h.f.size(), nv = h.x.size();
  // variants: rotation of face list and of the start in each face, reversal of
  // face list, order of vertices; orientation inverted
  int nvo = nv <= 4 ? 24 : 3;
  for (int var = 0; var < nf * 4; var++) for (int vo = 0; vo < nvo; vo++) for (auto& t : maps3) for (int inv = 0; inv < 2; inv++) {
    if (vo && (&t != &maps3[0] && &t != &maps3[1])) continue;
    std::vector<Point> cc, fc; std::vector<unsigned> fnn;
    VI ord(nv); for (int i = 0; i < nv; i++) ord[i] = i;
    if (nv <= 4) for (int i = 0; i < vo; i++) std::next_permutation(ord.begin(), ord.end()); else if (vo == 1) std::reverse(ord.begin(), ord.end()); else if (vo == 2) std::rotate(ord.begin(), ord.begin() + nv/2, ord.end());
    auto X = [&](int i) { return pt(ap(t, P(h.x[i][0], h.x[i][1], h.x[i][2])), 3); };
    for (int i : ord) cc.push_back(X(i));
    double pos = 0; for (auto& p : cc) pos = std::max(pos, norm(p));
    for (int k = 0; k < nf; k++) { auto f = h.f[(var/4 + ((var & 1) ? nf - k : k)) % nf]; int s = (var & 2) ? 1 + k % ((int)f.size() - 1) : 0; std::rotate(f.begin(), f.begin() + s, f.end()); if (inv) std::reverse(f.begin(), f.end()); fnn.push_back(f.size()); for (int i : f) fc.push_back(X(i)); }
    double det = t.a[0][0]*(t.a[1][1]*t.a[2][2]-t.a[1][2]*t.a[2][1]) - t.a[0][1]*(t.a[1][0]*t.a[2][2]-t.a[1][2]*t.a[2][0]) + t.a[0][2]*(t.a[1][0]*t.a[2][1]-t.a[1][1]*t.a[2][0]);
    std::string cx = std::string(t.n) + " variant " + vk::str(var) + " vertices " + vk::str(vo) + (inv ? " inverted" : "");
    double vol = -5; Point cen(3); cen.set(9.0);
    JaliGeometry::polyhed_get_vol_centroid(cc, nf, fnn, fc, &vol, &cen);
    double want = V * det; if (inv) want = -want;
    vk::cmp(2);
    if (!(std::fabs(vol - want) <= 1e-9 * std::fabs(want) + 1e-13 * pos * std::fabs(want))) vk::fail(inv ? "volume of inverted polyhedron" : "volume of polyhedron", cx + " got " + vk::str(vol) + " expected " + vk::str(want));
    peq(cen, ap(t, C), 3, "centroid of polyhedron", cx, pos * 0.1);
    double z0 = t.a[0][0]; if (inv || vo || (&t != &maps3[0] && &t != &maps3[4] && &t != &maps3[5])) continue; if (var && z0 != 1) continue;   // maps that scale exactly
    for (int z = -2; z <= 8; z++) for (int y = -2; y <= 8; y++) for (int x = -2; x <= 8; x++) {   // half steps
      bool out = false, on = false;
      for (auto& f : h.f) { hull::I3 a = h.x[f[0]], b = h.x[f[1]], c = h.x[f[2]]; hull::I3 N = hull::crs(hull::sub(b, a), hull::sub(c, a)); long s = N[0]*(x-2*a[0]) + N[1]*(y-2*a[1]) + N[2]*(z-2*a[2]); if (s > 0) { out = true; break; } if (s == 0) on = true; }
      if (!out && on) continue;
      vk::cmp();
      if (JaliGeometry::point_in_polyhed(Point(z0*x/2.0, z0*y/2.0, z0*z/2.0), cc, nf, fnn, fc) != !out) vk::fail(out ? "outer point reported inside polyhedron" : "inner point reported outside polyhedron", "(" + vk::str(x/2.0) + "," + vk::str(y/2.0) + "," + vk::str(z/2.0) + ") " + t.n + " variant " + vk::str(var));
    }
  }
}
// simple polygons that are not convex, and quadrilaterals that cross
// themselves: the vector area is exact in every case, the area too when the
// polygon is visible from the mean of its corners, and carries a minus sign
// when some part is inverted; points are told apart inside and outside
static bool on_seg(I2 a, I2 b, I2 q) { return cr(a, b, q) == 0 && std::min(a[0], b[0]) <= q[0] && q[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= q[1] && q[1] <= std::max(a[1], b[1]); }
static bool meet(I2 a, I2 b, I2 c, I2 d) { auto sg = [](long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }; int p = sg(cr(a, b, c)), q = sg(cr(a, b, d)), r = sg(cr(c, d, a)), t = sg(cr(c, d, b)); if (p != q && r != t && p && q && r && t) return true; return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b); }
static void loop(std::vector<I2> const& p, bool simple) {
  int n = p.size(); long A = 0, X = 0, Y = 0, sx = 0, sy = 0; for (int i = 0; i < n; i++) { I2 a = p[i], b = p[(i+1)%n]; long t = (long)a[0]*b[1] - (long)b[0]*a[1]; A += t; X += t*(a[0]+b[0]); Y += t*(a[1]+b[1]); sx += a[0]; sy += a[1]; }
  bool neg = false, zero = false; for (int i = 0; i < n; i++) { I2 a = p[i], b = p[(i+1)%n]; long t = (n*a[0]-sx)*(n*b[1]-sy) - (n*b[0]-sx)*(n*a[1]-sy); if (t < 0) neg = true; if (t == 0) zero = true; }
  for (auto& t : maps2) {
    std::vector<Point> c; for (auto& q : p) c.push_back(Point(t.a*q[0] + t.b*q[1] + t.x, t.c*q[0] + t.d*q[1] + t.y));
    double det = t.a*t.d - t.b*t.c, scl = std::fabs(t.a) + std::fabs(t.b) + std::fabs(t.c) + std::fabs(t.d), pos = std::fabs(t.x) + std::fabs(t.y) + 4 * scl, tol = 1e-9 * det + 1e-12 * pos * scl * 4;
    double area = 77; Point cen(2), nrm(2); cen.set(5.0); nrm.set(-3.0);
    JaliGeometry::polygon_get_area_centroid_normal(c, &area, &cen, &nrm);
    vk::cmp(2);
    if (std::fabs(nrm[0] - 0.5 * A * det) > tol) vk::fail("normal of polygon in the plane", std::string(t.n) + " got " + ps(nrm) + " expected " + vk::str(0.5 * A * det));
    if (neg ? !(area < 0) : false) vk::fail("inverted part of a polygon not marked by a negative area", std::string(t.n) + " got " + vk::str(area));
    if (!neg && !zero) { if (std::fabs(area - 0.5 * A * det) > tol) vk::fail("area of polygon", std::string(t.n) + " got " + vk::str(area) + " expected " + vk::str(0.5 * A * det)); double cx = X / (3.0 * A), cy = Y / (3.0 * A); peq(cen, P(t.a*cx + t.b*cy + t.x, t.c*cx + t.d*cy + t.y), 2, "centroid of polygon", t.n, pos * 1e-2); }
  }
  for (auto& t : planes) { std::vector<Point> c; for (auto& q : p) c.push_back(pt(P(t.u[0]*q[0] + t.v[0]*q[1] + t.o[0], t.u[1]*q[0] + t.v[1]*q[1] + t.o[1], t.u[2]*q[0] + t.v[2]*q[1] + t.o[2]), 3));
    double area = 77; Point cen(3), nrm(3); cen.set(5.0); nrm.set(-3.0); JaliGeometry::polygon_get_area_centroid_normal(c, &area, &cen, &nrm);
    V3 N = (0.5 * A) * cross(P(t.u[0], t.u[1], t.u[2]), P(t.v[0], t.v[1], t.v[2])); double sc = 0; for (double v : t.u) sc += v * v; sc += 1e-5 * span(t);
    for (int k = 0; k < 3; k++) { vk::cmp(); if (std::fabs(nrm[k] - N[k]) > 1e-9 * sc) { vk::fail("normal of polygon in space", std::string(t.n) + " got " + ps(nrm) + " expected " + ps(pt(N, 3))); break; } } }
  if (!simple) return;
  for (double z : sizes) { std::vector<Point> c; for (auto& q : p) c.push_back(Point(z*q[0], z*q[1]));
  for (int yy = -2; yy <= 14; yy++) for (int xx = -2; xx <= 14; xx++) {
    // winding number of the loop about the query point, exactly
    bool on = false; int w = 0; I2 q{{xx, yy}};
    for (int i = 0; i < n; i++) { I2 a{{4*p[i][0], 4*p[i][1]}}, b{{4*p[(i+1)%n][0], 4*p[(i+1)%n][1]}}; if (on_seg(a, b, q)) { on = true; break; } if (a[1] <= yy && b[1] > yy && cr(a, b, q) > 0) w++; if (a[1] > yy && b[1] <= yy && cr(a, b, q) < 0) w--; }
    if (on) continue; vk::cmp();
    if (JaliGeometry::point_in_polygon(Point(z*xx/4.0, z*yy/4.0), c) != (w != 0)) vk::fail(w ? "inner point reported outside polygon" : "outer point reported inside polygon", "(" + vk::str(xx/4.0) + "," + vk::str(yy/4.0) + ") of a polygon that is not convex, size " + vk::str(z));
  } }
}
static void loops(int g, int maxn) {
  std::vector<I2> L; for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) L.push_back(I2{{i, j}});
  std::vector<I2> p;
  std::function<void()> go = [&] { int n = p.size();
    if (n >= 4) {
      bool simple = true, flat = false; for (int i = 0; i < n && simple; i++) { if (cr(p[i], p[(i+1)%n], p[(i+2)%n]) == 0) flat = true; for (int j = i + 2; j < n; j++) if (!(i == 0 && j == n - 1) && meet(p[i], p[(i+1)%n], p[j], p[(j+1)%n])) { simple = false; break; } }
      if (!flat && (simple || n == 4)) { std::string nm = simple ? "loop" : "crossing"; for (auto& q : p) nm += "(" + std::to_string(q[0]) + "," + std::to_string(q[1]) + ")"; auto pp = p; vk::run(nm, [pp, simple] { loop(pp, simple); }); }
    }
    if (n == maxn) return;
    for (auto& q : L) { if (n && !(p[0] < q)) continue; if (std::find(p.begin(), p.end(), q) != p.end()) continue; bool ok = true; if (maxn > 4) for (int i = 0; i + 2 < n && ok; i++) if (meet(p[i], p[i+1], p[n-1], q)) ok = false; if (!ok) continue; p.push_back(q); go(); p.pop_back(); } };
  go();
}
// hexahedra with corners pushed about: faces become curved, and some of the
// cells turn partly inside out
static void bent(std::vector<hull::I3> const& x, int split) {
  static const int Q[6][4] = {{0,1,5,4}, {1,2,6,5}, {2,3,7,6}, {3,0,4,7}, {0,3,2,1}, {4,5,6,7}};
  // faces whose bit in split is set are two triangles instead
  std::vector<VI> F; for (int i = 0; i < 6; i++) { auto q = Q[i]; if (!(split >> i & 1)) F.push_back({q[0], q[1], q[2], q[3]}); else if (split >> (i + 6) & 1) { F.push_back({q[0], q[1], q[2]}); F.push_back({q[0], q[2], q[3]}); } else { F.push_back({q[1], q[2], q[3]}); F.push_back({q[1], q[3], q[0]}); } }
  // exact, in units of 1/8 (cell centre) and 1/4 (face centres)
  auto vol = [&](long a0, long a1, long a2, long b0, long b1, long b2, long c0, long c1, long c2) { return a0*(b1*c2-b2*c1) - a1*(b0*c2-b2*c0) + a2*(b0*c1-b1*c0); };
  long cc[3] = {0, 0, 0}; for (auto& v : x) for (int k = 0; k < 3; k++) cc[k] += v[k];
  long tot = 0; double M[3] = {0, 0, 0}; bool neg = false, zero = false;
  auto add = [&](long* A, long* B, long* C) { long t = vol(A[0],A[1],A[2],B[0],B[1],B[2],C[0],C[1],C[2]); tot += t; if (t < 0) neg = true; if (t == 0) zero = true; for (int k = 0; k < 3; k++) M[k] += t * (A[k] + B[k] + C[k]) / 4.0; };
  for (auto& f : F) { long fc[3] = {0, 0, 0}, A[3], B[3], C[3]; for (int i : f) for (int k = 0; k < 3; k++) fc[k] += x[i][k];
    if (f.size() == 3) { for (int k = 0; k < 3; k++) { A[k] = 8*x[f[0]][k]-cc[k]; B[k] = 8*x[f[1]][k]-cc[k]; C[k] = 8*x[f[2]][k]-cc[k]; } add(A, B, C); continue; }
    for (int i = 0; i < 4; i++) { auto& a = x[f[i]]; auto& b = x[f[(i+1)%4]]; for (int k = 0; k < 3; k++) { A[k] = 8*a[k]-cc[k]; B[k] = 8*b[k]-cc[k]; C[k] = 2*fc[k]-cc[k]; } add(A, B, C); } }
  if (zero && !neg) return;
  double V = tot / 512.0 / 6.0;
  for (auto& t : maps3) {
    std::vector<Point> c, fc; std::vector<unsigned> nn; auto X = [&](int i) { return pt(ap(t, P(x[i][0], x[i][1], x[i][2])), 3); };
    double pos = 0; for (int i = 0; i < 8; i++) { c.push_back(X(i)); pos = std::max(pos, norm(c.back())); } for (auto& f : F) { nn.push_back(f.size()); for (int i : f) fc.push_back(X(i)); }
    double det = t.a[0][0]*(t.a[1][1]*t.a[2][2]-t.a[1][2]*t.a[2][1]) - t.a[0][1]*(t.a[1][0]*t.a[2][2]-t.a[1][2]*t.a[2][0]) + t.a[0][2]*(t.a[1][0]*t.a[2][1]-t.a[1][1]*t.a[2][0]);
    double v = -5; Point cen(3); cen.set(9.0); JaliGeometry::polyhed_get_vol_centroid(c, nn.size(), nn, fc, &v, &cen);
    double want = V * det, mag = std::fabs(det); vk::cmp(2);
    if (std::fabs(std::fabs(v) - std::fabs(want)) > 1e-9 * mag + 1e-12 * pos * mag) vk::fail("volume of bent polyhedron", std::string(t.n) + " got " + vk::str(v) + " expected " + vk::str(want));
    if (tot && (v < 0) != neg) vk::fail(neg ? "inverted part of a polyhedron not marked by a negative volume" : "volume of a valid polyhedron is negative", std::string(t.n) + " got " + vk::str(v));
    if (!neg) peq(cen, ap(t, P((M[0] / tot + cc[0]) / 8, (M[1] / tot + cc[1]) / 8, (M[2] / tot + cc[2]) / 8)), 3, "centroid of bent polyhedron", t.n, pos * 0.1);
  }
}
VK_CHECK("C24", "exploration", "all convex polygons on a 4x4 (thorough 5x5) lattice with up to 6 (8) corners, with straight angles on 3x3 (4x4), polygons of up to 48 corners, every start vertex and orientation, 8 planar maps and 9 planes of sizes from 1e-7 to 1e6, all quarter-lattice test points at three sizes; all convex polyhedra spanned by subsets of the cube corners and 3 (thorough 6) roof points, prisms and pyramids over octagons and dodecagons, 4*faces face orders, vertex orders, 6 maps of sizes from 1e-5 to 1e5, all half-lattice test points; all simple loops of 4 to 7 corners on 3x3 (thorough 4 to 6 on 4x4) and all self-crossing quadrilaterals on 3x3, hexahedra with square or halved faces and one or two corners moved to 216 and 648 places; segments over a lattice of end points") {
  polygons(vk::thorough ? 5 : 4, vk::thorough ? 8 : 6, false);
  polygons(vk::thorough ? 4 : 3, vk::thorough ? 6 : 8, true);
  // polygons with up to 48 corners: the primitive vectors of a box in order of direction, put end to end; and part of them closed by a chord
  for (int k = 1; k <= 4; k++) { std::vector<I2> e; for (int a = -k; a <= k; a++) for (int b = -k; b <= k; b++) { int g = std::abs(a), h = std::abs(b); while (h) { int t = g % h; g = h; h = t; } if (g == 1) e.push_back(I2{{a, b}}); }
    std::sort(e.begin(), e.end(), [](I2 a, I2 b) { return std::atan2(a[1], a[0]) < std::atan2(b[1], b[0]); });
    for (int n = 3; n <= (int)e.size(); n++) { if (n != (int)e.size() && (k < 2 || n % (vk::thorough ? 2 : 5))) continue; std::vector<I2> q; I2 x{{0, 0}}; for (int i = 0; i < n; i++) { q.push_back(x); x[0] += e[i][0]; x[1] += e[i][1]; } if (n < (int)e.size()) q.push_back(x);
      bool ok = true; for (size_t i = 0; i < q.size() && ok; i++) for (auto& y : q) if (cr(q[i], q[(i + 1) % q.size()], y) < 0) ok = false; if (!ok || cr(q[0], q[1], q.back()) == 0) continue;
      vk::run("many corners " + std::to_string(k) + "," + std::to_string(n), [q] { polygon(q); }); } }
  // polyhedra with large faces: prisms, pyramids and bipyramids over such polygons
  { std::vector<I2> g8 = {{{1,0}},{{2,0}},{{3,1}},{{3,2}},{{2,3}},{{1,3}},{{0,2}},{{0,1}}}, g12 = {{{2,0}},{{3,0}},{{4,1}},{{5,3}},{{5,4}},{{4,6}},{{3,7}},{{2,7}},{{1,6}},{{0,4}},{{0,3}},{{1,1}}};
    for (int s = 0; s < 2; s++) for (int kind = 0; kind < 4; kind++) { auto& g = s ? g12 : g8; std::vector<hull::I3> x; for (auto& q : g) { x.push_back({{q[0], q[1], 0}}); if (kind == 0) x.push_back({{q[0], q[1], 2}}); if (kind == 3) x.push_back({{q[0] + 1, q[1] + q[0], 2}}); } if (kind == 1 || kind == 2) x.push_back({{2, 2, 3}}); if (kind == 2) x.push_back({{1, 2, -2}});
      hull::Hull h = hull::make(x); if (!h.ok) continue; vk::run("large faces " + std::to_string(s) + std::to_string(kind), [h] { polyhed(h); }); } }
  std::vector<hull::I3> pool = {{{0,0,0}},{{2,0,0}},{{0,2,0}},{{2,2,0}},{{0,0,2}},{{2,0,2}},{{0,2,2}},{{2,2,2}},{{1,1,3}},{{3,1,1}},{{1,-1,1}}};
  if (vk::thorough) { pool.push_back({{-1,1,1}}); pool.push_back({{1,3,1}}); pool.push_back({{1,1,-1}}); }
  for (int m = 1; m < (1 << pool.size()); m++) {
    std::vector<hull::I3> x; for (size_t i = 0; i < pool.size(); i++) if (m >> i & 1) x.push_back(pool[i]);
    if (x.size() < 4) continue;
    hull::Hull h = hull::make(x); if (!h.ok) continue;
    vk::run("hull" + std::to_string(m), [h] { polyhed(h); });
  }
  // irregular polyhedra: tetrahedra over a lattice
  { std::vector<hull::I3> L; for (int z = 0; z < 3; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) L.push_back({{x, y, z}});
    int step = vk::thorough ? 1 : 13, k = 0;
    for (int a = 0; a < 27; a++) for (int b = a+1; b < 27; b++) for (int c = b+1; c < 27; c++) for (int d = c+1; d < 27; d++) {
      if (k++ % step) continue;
      hull::Hull h = hull::make({L[a], L[b], L[c], L[d]}); if (!h.ok) continue;
      vk::run("tet " + vk::str(VI{a,b,c,d}), [h] { polyhed(h); });
    } }
  loops(3, 4); loops(vk::thorough ? 4 : 3, vk::thorough ? 6 : 7);
  { std::vector<hull::I3> u = {{{0,0,0}},{{4,0,0}},{{4,4,0}},{{0,4,0}},{{0,0,4}},{{4,0,4}},{{4,4,4}},{{0,4,4}}};
    for (int a = 0; a < 8; a++) for (int b = a; b < (vk::thorough ? 8 : a + 2) && b < 8; b++) vk::run("bent " + std::to_string(a) + std::to_string(b), [u, a, b] {
      std::vector<int> g = {-3, -1, 0, 1, 3, 6}; auto x = u;
      for (int i : g) for (int j : g) for (int k : g) { x[a] = {{u[a][0] + i, u[a][1] + j, u[a][2] + k}}; if (b == a) { for (int sp : {0, 63, 63 + 64 * 63, 63 + 64 * 21, 7 + 64 * 3}) bent(x, sp); continue; } for (int l : {-1, 1, 5}) { x[b] = {{u[b][0] + l, u[b][1] - l, u[b][2] + 1}}; bent(x, l == 1 ? 63 + 64 * 42 : 0); } vk::beat(); } }); }
  // segments
  std::vector<double> g = {-3, -1, -0.25, 0, 0.5, 1, 2, 7, 1000};
  for (double a : g) for (double b : g) if (a != b) vk::run("segment " + vk::str(a) + "," + vk::str(b), [a, b] {
    for (int sd = 1; sd <= 3; sd++) {
      std::vector<Point> c; for (double v : {a, b}) { Point p(sd); p[0] = v; for (int i = 1; i < sd; i++) p[i] = i * v + 1; c.push_back(p); }
      double vol = -1; Point cen(1);
      JaliGeometry::segment_get_vol_centroid(c, JaliGeometry::Geom_type::CARTESIAN, &vol, &cen);
      double f = sd == 1 ? 1 : sd == 2 ? std::sqrt(2.0) : std::sqrt(6.0);
      vk::feq(vol, std::fabs(b - a) * f, "segment length"); V3 m = P((a+b)/2, (a+b)/2+1, (a+b)+1); peq(cen, m, sd, "segment midpoint");
    }
    if (a >= 0 && b > a) {
      std::vector<Point> c; for (double v : {a, b}) { Point p(1); p[0] = v; c.push_back(p); }
      double vol = -1; Point cen(1); JaliGeometry::segment_get_vol_centroid(c, JaliGeometry::Geom_type::SPHERICAL, &vol, &cen);
      vk::feq(vol, 4.0 / 3.0 * M_PI * (b*b*b - a*a*a), "shell volume", "", 0); peq(cen, P((a+b)/2, 0), 1, "shell midpoint");
      for (double v : {a, b}) { std::vector<Point> q(1, Point(1)); q[0][0] = v; double ar = -1; JaliGeometry::face1d_get_area(q, JaliGeometry::Geom_type::SPHERICAL, &ar); vk::feq(ar, 4*M_PI*v*v, "shell area", "", 0); JaliGeometry::face1d_get_area(q, JaliGeometry::Geom_type::CARTESIAN, &ar); vk::feq(ar, 1.0, "unit area"); }
    }
  });
}
