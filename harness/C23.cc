// C23: region membership, accessors and copies
#include "refmesh.hh"
using namespace ref;
using namespace JaliGeometry;
static Point mkp(int d, double x, double y = 0, double z = 0) { Point p(d); double v[3] = {x, y, z}; for (int i = 0; i < d; i++) p[i] = v[i]; return p; }
static std::string es(Point const& p) { return ps(p); }
template <class R> static bool throws_on(R const& r, Point const& p) { try { r.inside(p); } catch (Errors::Message&) { return true; } return false; }
template <class R> static void common(R const& r, std::string const& nm, unsigned id, Region_type t, int dim, LifeCycle_type l) {
  R c(r); R c2(c);
  for (R const* q : {(R const*)&r, (R const*)&c, (R const*)&c2}) {
    Region const& b = *q; char const* w = q == &r ? "" : " of copy";
    vk::eq(b.name(), nm, std::string("name") + w); vk::eq(b.id(), id, std::string("id") + w); vk::eq((int)b.type(), (int)t, std::string("type") + w);
    vk::eq((int)b.lifecycle(), (int)l, std::string("lifecycle") + w);
    if (dim >= 0) vk::eq((int)b.dimension(), dim, std::string("dimension") + w); else vk::eq((int)b.dimension(), (int)r.dimension(), std::string("dimension") + w);
  }
}
template <class R> static void in(R const& r, Point const& p, bool want, char const* what) {
  vk::cmp(3); R c(r); Region const& b = c; Point q(p);
  if (r.inside(q) != want) vk::fail(std::string(what) + (want ? ": inner point refused" : ": outer point accepted"), es(p));
  if (b.inside(q) != want) vk::fail(std::string(what) + " copy" + (want ? ": inner point refused" : ": outer point accepted"), es(p));
  vk::ok(es(q) == es(p), "query point changed");
}
static void boxes() {
  std::vector<double> C = {-1, 0, 0.5, 2};
  double eps[] = {0, 5e-9, -5e-9, 2e-8, -2e-8};
  int n = C.size();
  for (int d = 1; d <= 3; d++) {
    int tot = 1; for (int i = 0; i < 2 * d; i++) tot *= n;
    for (int k = 0; k < tot; k++) {
      int q = k; double a[3], b[3]; for (int i = 0; i < d; i++) { a[i] = C[q % n]; q /= n; b[i] = C[q % n]; q /= n; }
      if (d == 3 && !vk::thorough && (k % 7)) continue;
      vk::run("box d" + std::to_string(d) + " " + vk::str(std::vector<double>(a, a + d)) + vk::str(std::vector<double>(b, b + d)), [=] {
        Point p0(d), p1(d); p0.set(d, a); p1.set(d, b);
        LifeCycle_type l = k % 2 ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
        BoxRegion r("box" + std::to_string(k), k + 3, p0, p1, l);
        int dim = 0; for (int i = 0; i < d; i++) if (a[i] != b[i]) dim++;
        common(r, "box" + std::to_string(k), k + 3, Region_type::BOX, dim, l);
        BoxRegion c(r);
        for (BoxRegion const* x : {(BoxRegion const*)&r, (BoxRegion const*)&c}) {
          for (int i = 0; i < d; i++) { vk::eq(x->point0()[i], a[i], "first corner"); vk::eq(x->point1()[i], b[i], "second corner"); }
          Point lo(3), hi; x->corners(&lo, &hi); vk::ok(lo.dim() == d && hi.dim() == d, "corner dimensions");
          for (int i = 0; i < d; i++) { vk::eq(lo[i], a[i], "corner"); vk::eq(hi[i], b[i], "corner"); }
          int nd = 99; bool dg = x->is_degenerate(&nd); vk::eq(nd, d - dim, "number of degenerate directions"); vk::eq(dg, dim < d, "degenerate");
        }
        // all combinations of per-direction positions
        std::vector<double> T; for (double v : C) for (double e : eps) T.push_back(v + e); T.push_back(0.25); T.push_back(1); T.push_back(-5); T.push_back(5);
        auto in1 = [&](int i, double v) { double lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]); return v >= lo - 1e-8 && v <= hi + 1e-8; };
        if (d == 1) for (double v : T) in(r, mkp(1, v), in1(0, v), "box");
        if (d == 2) for (double v : T) for (double w : T) in(r, mkp(2, v, w), in1(0, v) && in1(1, w), "box");
        if (d == 3) { std::vector<double> S = {-1, 0, 0.5, 2, 0.25, -5, 2 + 2e-8, -1 - 2e-8, 5e-9};
          for (double v : S) for (double w : S) for (double z : S) in(r, mkp(3, v, w, z), in1(0, v) && in1(1, w) && in1(2, z), "box"); }
        for (int e = 1; e <= 3; e++) if (e != d) vk::ok(throws_on(r, Point(e)), "point of another dimension not refused");
      });
    }
  }
  // boxes of any size: thinner than the tolerance of the membership test, or huge
  for (int d = 1; d <= 3; d++) vk::run("box sizes d" + std::to_string(d), [d] { double E[] = {0, 4e-9, 1e-4, 1, 300, 1e12}; int ne = 6, tot = 1; for (int i = 0; i < d; i++) tot *= ne;
    for (int k = 0; k < tot; k++) for (int sg = 0; sg < 2; sg++) { Point p0(d), p1(d), m(d); int q = k, dim = 0; std::string cx; for (int i = 0; i < d; i++) { double e = E[q % ne]; q /= ne; p0[i] = sg ? e : 0; p1[i] = sg ? 0 : e; m[i] = e / 2; if (e != 0) dim++; cx += vk::str(e) + " "; }
      BoxRegion r("b", 1, p0, p1); int nd = 99; bool dg = r.is_degenerate(&nd); vk::eq((int)r.dimension(), dim, "dimension", cx); vk::eq(nd, d - dim, "number of degenerate directions", cx); vk::eq(dg, dim < d, "degenerate", cx);
      in(r, m, true, "box"); in(r, p0, true, "box"); in(r, p1, true, "box"); for (int i = 0; i < d; i++) for (int s = -1; s < 2; s += 2) { Point o = m; double e = std::fabs(p1[i] - p0[i]); o[i] = m[i] + s * (e * 0.75 + 1e-7); in(r, o, false, "box"); } } });
  vk::run("box mixed dimensions", [] { for (int i = 1; i <= 3; i++) for (int j = 1; j <= 3; j++) { bool t = false; try { BoxRegion r("m", 1, Point(i), Point(j)); } catch (Errors::Message&) { t = true; } vk::eq(t, i != j, "mixed corner dimensions"); } });
}
static void planes() {
  std::vector<V3> N; for (int i = -1; i <= 2; i++) for (int j = -1; j <= 2; j++) for (int k = -1; k <= 2; k++) if (i || j || k) N.push_back(P(i, j, k));
  std::vector<V3> O = {P(0,0,0), P(1,2,-1), P(-0.5,0.25,3)};
  for (int d = 2; d <= 3; d++) for (auto& n : N) for (auto& o : O) {
    if (d == 2 && (n[2] != 0 || (n[0] == 0 && n[1] == 0))) continue;
    vk::run("plane d" + std::to_string(d) + " " + vk::str(n) + vk::str(o), [=] {
      PlaneRegion r("pl", 12, pt(o, d), pt(n, d), LifeCycle_type::TEMPORARY);
      common(r, "pl", 12, Region_type::PLANE, d - 1, LifeCycle_type::TEMPORARY);
      PlaneRegion c(r); for (int i = 0; i < d; i++) { vk::eq(c.point()[i], o[i], "plane point of copy"); vk::eq(c.normal()[i], n[i], "plane normal of copy"); vk::eq(r.point()[i], o[i], "plane point"); vk::eq(r.normal()[i], n[i], "plane normal"); }
      double n2 = 0; for (int i = 0; i < d; i++) n2 += n[i]*n[i];
      for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = (d == 3 ? -2 : 0); z <= (d == 3 ? 2 : 0); z++) {
        V3 p = P(o[0] + x * 0.5, o[1] + y * 0.5, d == 3 ? o[2] + z * 0.5 : 0); double s = 0.5 * (n[0]*x + n[1]*y + (d == 3 ? n[2]*z : 0));
        in(r, pt(p, d), s == 0, "plane");
        if (s == 0) for (double e : {1e-9, -1e-9, 1e-6, 1e-14, -1e-14}) { V3 q = p; for (int i = 0; i < d; i++) q[i] += e * n[i] / n2; in(r, pt(q, d), std::fabs(e) < 1e-12, "plane within tolerance"); }
      }
      for (int e = 1; e <= 3; e++) if (e != d) vk::ok(throws_on(r, Point(e)), "point of another dimension not refused");
    });
  }
  vk::run("plane mixed dimensions", [] { for (int i = 2; i <= 3; i++) for (int j = 2; j <= 3; j++) { bool t = false; try { PlaneRegion r("m", 1, Point(i), Point(j)); } catch (Errors::Message&) { t = true; } vk::eq(t, i != j, "mixed dimensions"); } });
}
static void points() {
  for (int d = 1; d <= 3; d++) for (double bx : {0.0, 1.0, -2.5}) for (double by : {0.0, 3.0}) vk::run("point d" + std::to_string(d) + " " + vk::str(bx) + "," + vk::str(by), [=] {
    V3 o = P(bx, by, 2); PointRegion r("pt", 5, pt(o, d)); common(r, "pt", 5, Region_type::POINT, 0, LifeCycle_type::PERMANENT);
    PointRegion c(r); for (int i = 0; i < d; i++) vk::eq(c.point()[i], o[i], "point of copy");
    double E[] = {0, 2e-13, -2e-13, 1e-11, -1e-11, 1, -1}; int tot = 1; for (int i = 0; i < d; i++) tot *= 7;
    for (int k = 0; k < tot; k++) { int q = k; V3 p = o; bool w = true; for (int i = 0; i < d; i++) { p[i] += E[q % 7]; if (q % 7 > 2) w = false; q /= 7; } in(r, pt(p, d), w, "point"); }
    for (int e = 1; e <= 3; e++) if (e != d) vk::ok(throws_on(r, Point(e)), "point of another dimension not refused");
  });
}
// simple polygons (convex or not) on a lattice, in a plane of space
typedef std::array<int, 2> I2;
static long cr(I2 a, I2 b, I2 c) { return (long)(b[0]-a[0])*(c[1]-a[1]) - (long)(b[1]-a[1])*(c[0]-a[0]); }
static bool onseg(I2 a, I2 b, I2 q) { return cr(a, b, q) == 0 && std::min(a[0],b[0]) <= q[0] && q[0] <= std::max(a[0],b[0]) && std::min(a[1],b[1]) <= q[1] && q[1] <= std::max(a[1],b[1]); }
static int sg(long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool crossing(I2 a, I2 b, I2 c, I2 d) { if (onseg(a,b,c) || onseg(a,b,d) || onseg(c,d,a) || onseg(c,d,b)) return true; return sg(cr(a,b,c)) * sg(cr(a,b,d)) < 0 && sg(cr(c,d,a)) * sg(cr(c,d,b)) < 0; }
static bool simple(std::vector<I2> const& p) {
  int n = p.size();
  for (int i = 0; i < n; i++) { I2 a = p[i], b = p[(i+1)%n], c = p[(i+2)%n]; if (cr(a, b, c) == 0 && (long)(b[0]-a[0])*(c[0]-b[0]) + (long)(b[1]-a[1])*(c[1]-b[1]) <= 0) return false;
    for (int j = i + 2; j < n; j++) { if (i == 0 && j == n - 1) continue; if (crossing(a, b, p[j], p[(j+1)%n])) return false; } }
  long A = 0; for (int i = 0; i < n; i++) A += (long)p[i][0]*p[(i+1)%n][1] - (long)p[i][1]*p[(i+1)%n][0];
  return A != 0;
}
struct T3 { char const* n; V3 u, v, o; };
static const T3 TP[] = {{"xy",{{1,0,0}},{{0,1,0}},{{0,0,0}}}, {"yx",{{0,1,0}},{{1,0,0}},{{0,0,2}}}, {"xz",{{1,0,0}},{{0,0,1}},{{1,2,3}}}, {"yz",{{0,1,0}},{{0,0,1}},{{-4,0,0}}}, {"zy",{{0,0,1}},{{0,1,0}},{{-4,0,0}}}, {"tilt",{{1,0,1}},{{0,1,0}},{{0,0,1}}}, {"skew",{{0.5,0.5,0}},{{-0.5,0.5,1}},{{1,2,3}}}, {"steep",{{1,0,-2}},{{0,1,2}},{{0,0,1}}}};
static void polygon3(std::vector<I2> const& p0) {
  int n = p0.size();
  // lattice quarter points classified exactly once
  struct Q { double a, b; bool in; }; std::vector<Q> qs;
  int bx[4] = {0, 3, 0, 3}; for (auto& q : p0) { bx[0] = std::min(bx[0], q[0]); bx[1] = std::max(bx[1], q[0]); bx[2] = std::min(bx[2], q[1]); bx[3] = std::max(bx[3], q[1]); }
  int stp = bx[1] - bx[0] > 6 ? 3 : 1;
  for (int y = 4 * bx[2] - 4; y <= 4 * bx[3] + 4; y += stp) for (int x = 4 * bx[0] - 4; x <= 4 * bx[1] + 4; x += stp) {
    std::vector<I2> s; for (auto& q : p0) s.push_back(I2{{4*q[0], 4*q[1]}}); I2 t{{x, y}}; bool on = false; int wn = 0;
    for (int i = 0; i < n; i++) { I2 a = s[i], b = s[(i+1)%n]; if (onseg(a, b, t)) on = true; if (a[1] <= y) { if (b[1] > y && cr(a, b, t) > 0) wn++; } else if (b[1] <= y && cr(a, b, t) < 0) wn--; }
    qs.push_back(Q{x/4.0, y/4.0, on || wn != 0});
  }
  for (int rev = 0; rev < 2; rev++) for (int st = 0; st < n; st++) for (auto& t : TP) {
    std::vector<Point> pts; auto at = [&](double a, double b) { return t.o + a * t.u + b * t.v; };
    for (int i = 0; i < n; i++) { I2 q = p0[rev ? (st - i + n) % n : (st + i) % n]; pts.push_back(pt(at(q[0], q[1]), 3)); }
    PolygonRegion r("pg", 9, n, pts, LifeCycle_type::TEMPORARY); PolygonRegion c(r);
    V3 N = cross(t.u, t.v); N = (1 / len(N)) * N; std::string cx = std::string(t.n) + " start " + vk::str(st) + (rev ? " reversed" : "");
    vk::cmp(); double al = std::fabs(dot(v3(r.normal()), N)); if (!(std::fabs(al - 1) < 1e-9)) vk::fail("normal of polygon region", cx + " " + ps(r.normal()));
    for (auto& q : qs) for (PolygonRegion const* x : {(PolygonRegion const*)&r, (PolygonRegion const*)&c}) {
      vk::cmp(); if (x->inside(pt(at(q.a, q.b), 3)) != q.in) vk::fail(std::string(x == &r ? "polygon" : "copy of polygon") + (q.in ? ": inner point refused" : ": outer point accepted"), cx + " (" + vk::str(q.a) + "," + vk::str(q.b) + ")");
      if (x == &r && std::fmod(q.a * 4, 2) == 0) for (double e : {1e-6, -1.0}) { vk::cmp(); if (x->inside(pt(at(q.a, q.b) + e * N, 3))) vk::fail("polygon: point off its plane accepted", cx); }
    }
    if (!rev && !st) common(r, "pg", 9, Region_type::POLYGON, -1, LifeCycle_type::TEMPORARY);
    vk::eq((int)c.num_points(), n, "number of points"); for (int i = 0; i < n; i++) { vk::ok(ps(c.points()[i]) == ps(pts[i]), "polygon points of copy"); vk::ok(ps(r.points()[i]) == ps(pts[i]), "polygon points"); }
  }
}
static void polygons3() {
  int g = 3; std::vector<I2> L; for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) L.push_back(I2{{i, j}});
  std::vector<I2> p; int maxn = vk::thorough ? 7 : 5;
  std::function<void()> go = [&] {
    int n = p.size();
    if (n >= 3 && p[1] < p[n-1] && simple(p)) { std::string nm = "polygon"; for (auto& q : p) nm += "(" + std::to_string(q[0]) + "," + std::to_string(q[1]) + ")"; auto c = p; vk::run(nm, [c] { polygon3(c); }); }
    if (n == maxn) return;
    for (auto& q : L) { if (n && !(p[0] < q)) continue; if (std::find(p.begin(), p.end(), q) != p.end()) continue; p.push_back(q); go(); p.pop_back(); }
  };
  go();
}
// polygons with many corners: combs, stairs, stars, and nearly round ones
static void polygonsbig() {
  std::vector<std::pair<std::string, std::vector<I2>>> v;
  for (int t = 2; t <= (vk::thorough ? 8 : 5); t++) { std::vector<I2> q; q.push_back({{0, 0}}); q.push_back({{2 * t - 1, 0}}); for (int i = t - 1; i >= 0; i--) { q.push_back({{2 * i + 1, 3}}); q.push_back({{2 * i, 3}}); if (i) { q.push_back({{2 * i, 1}}); q.push_back({{2 * i - 1, 1}}); } } v.push_back({"comb" + std::to_string(t), q}); }
  for (int t = 2; t <= 6; t++) { std::vector<I2> q; q.push_back({{0, 0}}); q.push_back({{t, 0}}); for (int i = t; i >= 1; i--) { q.push_back({{i, t - i + 1}}); q.push_back({{i - 1, t - i + 1}}); } v.push_back({"stair" + std::to_string(t), q}); }
  v.push_back({"star", {{{3,0}},{{4,2}},{{6,3}},{{4,4}},{{3,6}},{{2,4}},{{0,3}},{{2,2}}}}); v.push_back({"octagon", {{{1,0}},{{2,0}},{{3,1}},{{3,2}},{{2,3}},{{1,3}},{{0,2}},{{0,1}}}});
  v.push_back({"dodecagon", {{{2,0}},{{3,0}},{{4,1}},{{5,3}},{{5,4}},{{4,6}},{{3,7}},{{2,7}},{{1,6}},{{0,4}},{{0,3}},{{1,1}}}}); v.push_back({"spiral", {{{0,0}},{{6,0}},{{6,6}},{{0,6}},{{0,2}},{{4,2}},{{4,4}},{{2,4}},{{2,3}},{{1,3}},{{1,5}},{{5,5}},{{5,1}},{{0,1}}}});
  for (auto& c : v) if (simple(c.second)) { auto q = c.second; vk::run("large polygon " + c.first, [q] { polygon3(q); }); }
}
static void segments2() {
  for (int ax = -1; ax <= 1; ax++) for (int ay = -1; ay <= 1; ay++) for (int bx = -3; bx <= 3; bx++) for (int by = -3; by <= 3; by++) {
    if (ax == bx && ay == by) continue;
    vk::run("segment2d " + vk::str(VI{ax, ay, bx, by}), [=] {
      std::vector<Point> pts = {Point(ax, ay), Point(bx, by)}; PolygonRegion r("sg", 2, 2, pts), c(r);
      common(r, "sg", 2, Region_type::POLYGON, -1, LifeCycle_type::PERMANENT);
      I2 a{{4*ax, 4*ay}}, b{{4*bx, 4*by}};
      for (int x = -16; x <= 16; x++) for (int y = -16; y <= 16; y++) { bool w = onseg(a, b, I2{{x, y}}); in(r, Point(x/4.0, y/4.0), w, w && ((x == a[0] && y == a[1]) || (x == b[0] && y == b[1])) ? "segment end" : "segment"); }
    });
  }
}
VK_CHECK("C23", "exploration", "boxes over all corner pairs from 4 positions per direction (3D: every 7th in the quick tier), planes over 63 normals and 3 origins, points with per-direction offsets around the tolerance, combs, stairs, stars and round polygons of up to 20 corners, every simple polygon with up to 5 (thorough 7) corners on a 3x3 lattice in 8 planes with every start and orientation, all 2D segments on a lattice; boxes of every combination of sizes from 0 to 1e12; queries at, just within, just outside and away from each boundary; copies of copies") {
  boxes(); planes(); points(); polygons3(); polygonsbig(); segments2();
  for (int op = 0; op < 4; op++) for (int byname = 0; byname < 2; byname++) for (int n = 0; n <= 3; n++) vk::run("logical " + vk::str(VI{op, byname, n}), [=] {
    char const* nm[] = {"Complement", "Union", "Intersect", "Subtract"}; Bool_type b[] = {Bool_type::COMPLEMENT, Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT};
    std::vector<std::string> comp; for (int i = 0; i < n; i++) comp.push_back("r" + std::to_string(2 * i));
    std::unique_ptr<LogicalRegion> r(byname ? new LogicalRegion("lg", 4, nm[op], comp, LifeCycle_type::TEMPORARY) : new LogicalRegion("lg", 4, b[op], comp, LifeCycle_type::TEMPORARY));
    common(*r, "lg", 4, Region_type::LOGICAL, -1, LifeCycle_type::TEMPORARY);
    LogicalRegion c(*r);
    vk::eq((int)r->operation(), (int)b[op], "operation"); vk::eq(r->component_regions(), comp, "components");
    vk::eq((int)c.operation(), (int)b[op], "operation of copy"); vk::eq(c.component_regions(), comp, "components of copy");
    vk::ok(throws_on(*r, Point(3)), "inside of a logical region did not report an error");
  });
  for (int dim = 1; dim <= 3; dim++) for (int n = 1; n <= 3; n++) if (dim == 1 || n < dim) vk::run("polygon of " + vk::str(n) + " points in " + vk::str(dim) + "d", [=] { std::vector<Point> p; for (int i = 0; i < n; i++) { Point q(dim); for (int d = 0; d < dim; d++) q[d] = i == d + 1; p.push_back(q); }
    bool t = false; try { PolygonRegion r("pg", 1, n, p); } catch (Errors::Message&) { t = true; } vk::ok(t, "polygon region that cannot be was accepted"); });
  vk::run("logical unknown", [] { for (std::string s : {"union", "", "Unions", "Not"}) { bool t = false; try { LogicalRegion r("x", 1, s, {"a"}); } catch (Errors::Message&) { t = true; } vk::ok(t, "unknown logical operation accepted", s); } });
  for (std::string k : {"CELL", "FACE", "NODE", ""}) for (int l = 0; l < 2; l++) vk::run("labeled " + k + std::to_string(l), [=] {
    LifeCycle_type lc = l ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
    LabeledSetRegion r("ls", 77, k, "f.exo", "Exodus II", "10" + k, lc); common(r, "ls", 77, Region_type::LABELEDSET, -1, lc);
    LabeledSetRegion c(r); LabeledSetRegion c2(c);
    for (auto x : {&r, &c, &c2}) { vk::eq(x->label(), "10" + k, x == &r ? "label" : "label of copy"); vk::eq(x->entity_str(), k, x == &r ? "entity kind" : "entity kind of copy"); }
    vk::ok(throws_on(r, Point(3)), "inside of a labelled set did not report an error");
  });
}
