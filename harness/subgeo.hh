// Oracles for subcell geometry (C07; C05 uses them on moved meshes)
#ifndef SUBGEO_HH
#define SUBGEO_HH
#include "refmesh.hh"
#include "Mesh_simple.hh"
namespace ref {
inline void peqs(std::vector<Point> const& got, std::vector<V3> const& want, int sd, std::string const& what, std::string const& cx, double sc) {
  if (!vk::eq(got.size(), want.size(), what + ": number of points", cx)) return; for (size_t i = 0; i < want.size(); i++) peq(got[i], want[i], sd, what, cx + " point " + vk::str(i), sc); }
// rec: recomputed values too.  The mesh's stored geometry must be up to date.
inline void subgeo(Jali::Mesh const& m, Ref const& r, bool rec) {
  double sc = 0, L = 0; for (auto& x : r.X) for (int i = 0; i < 3; i++) sc = std::max(sc, std::fabs(x[i])); for (auto& x : r.X) L = std::max(L, len(x - r.X[0]));
  double SL = L, SA = L * L, SV = r.md == 2 ? SA : L * L * L, SF = r.md == 2 ? SL : SA; int sd = r.sd, md = r.md;
  std::vector<V3> fc(r.nf()); for (int f = 0; f < r.nf(); f++) { auto x = xs(r, r.fn[f]); fc[f] = md == 3 ? polyg(x).cen : 0.5 * (x[0] + x[1]); }
  for (int c = 0; c < r.nc(); c++) { std::string cx = "cell " + vk::str(c); VI ss; m.cell_get_sides(c, &ss);
    if (r.ctype[c] == Entity_type::BOUNDARY_GHOST) { for (int s : ss) { vk::eq(m.side_volume(s), 0.0, "volume of a boundary ghost side", cx); vk::eq(m.wedge_volume(m.side_get_wedge(s, 0)), 0.0, "volume of a boundary ghost wedge", cx); peq(m.side_facet_normal(s), P(0, 0, 0), sd, "normal of a boundary ghost side", cx); } VI k; m.cell_get_corners(c, &k); for (int x : k) vk::eq(m.corner_volume(x), 0.0, "volume of a boundary ghost corner", cx); continue; }
    CellG g = cellg(r, c); V3 N = P(0, 0, 0); if (md == 2) { PolyG p = polyg(xs(r, r.cn[c])); N = (1 / p.area) * p.nrm; }
    for (int rc = 0; rc < (rec ? 2 : 1); rc++) { std::string wr = rc ? " recomputed" : ""; double sumS = 0, sumW = 0, sumC = 0; std::map<int, double> wv, atn; std::map<int, V3> fsum;
      for (int s : ss) { std::string sx = cx + " side " + vk::str(s); V3 a = r.X[m.side_get_node(s, 0)], b = r.X[m.side_get_node(s, 1)]; int f = m.side_get_face(s); V3 ec = 0.5 * (a + b), F = fc[f]; double vol; V3 out, mid;
        if (md == 3) { V3 n = cross(b - a, F - a); vol = dot(n, g.cen - a) / 6; out = -0.5 * n; mid = 0.5 * cross(F - ec, g.cen - ec); } else { V3 n = cross(b - a, g.cen - a); vol = 0.5 * dot(n, N); out = cross(b - a, N); mid = cross(g.cen - ec, N); }
        vk::feq(m.side_volume(s, rc), vol, "side volume" + wr, sx, SV); vk::ok(m.side_volume(s, rc) > 0, "side volume is positive" + wr, sx); sumS += m.side_volume(s, rc);
        Point on = m.side_facet_normal(s, rc); peq(on, out, sd, "outward facet normal of a side" + wr, sx, SF); fsum[f] = fsum[f] + v3(on);
        if (!rc) { std::vector<Point> p = junkp(); m.side_get_coordinates(s, &p); std::vector<V3> w = {a, b}; if (md == 3) w.push_back(F); w.push_back(g.cen); peqs(p, w, sd, "coordinates of a side", sx, sc); p = junkp(); m.side_get_coordinates(s, &p, true); peqs(p, w, sd, "coordinates of a side in positive order", sx, sc); }
        for (int i = 0; i < 2; i++) { int w = m.side_get_wedge(s, i); std::string wx = sx + " wedge " + vk::str(i); double v = m.wedge_volume(w, rc); vk::feq(v, vol / 2, "wedge volume is half its side" + wr, wx, SV); sumW += v; atn[m.wedge_get_node(w)] += vol / 2;
          peq(m.wedge_facet_normal(w, 0, rc), 0.5 * out, sd, "outward facet normal of a wedge" + wr, wx, SF); peq(m.wedge_facet_normal(w, 1, rc), (i ? -1.0 : 1.0) * mid, sd, "inner facet normal of a wedge" + wr, wx, SF);
          if (!rc) { V3 nd = i ? b : a; std::vector<Point> p = junkp(); m.wedge_get_coordinates(w, &p); std::vector<V3> x = {nd}; if (md == 3) x.push_back(ec); x.push_back(F); x.push_back(g.cen); peqs(p, x, sd, "coordinates of a wedge", wx, sc);
            p = junkp(); m.wedge_get_coordinates(w, &p, true); if (vk::eq(p.size(), x.size(), "number of points of a wedge", wx)) { std::vector<V3> q; for (auto& y : p) q.push_back(v3(y)); double pv = md == 3 ? dot(cross(q[1] - q[0], q[2] - q[0]), q[3] - q[0]) / 6 : 0.5 * dot(cross(q[1] - q[0], q[2] - q[0]), N); vk::feq(pv, vol / 2, "coordinates of a wedge in positive order give its volume", wx, SV);
              auto key = [&](V3 y) { return std::array<long, 3>{{std::lround(y[0] / L * 1e6), std::lround(y[1] / L * 1e6), std::lround(y[2] / L * 1e6)}}; }; std::multiset<std::array<long, 3>> A, B; for (auto& y : q) A.insert(key(y)); for (auto& y : x) B.insert(key(y)); vk::ok(A == B, "coordinates of a wedge in positive order are its points", wx); } } } }
      vk::feq(sumS, g.vol, "sides fill the cell" + wr, cx, SV); vk::feq(sumW, g.vol, "wedges fill the cell" + wr, cx, SV);
      for (auto& k : fsum) peq(pt(k.second, sd), v3(m.face_normal(k.first, rc, c)), sd, "facets of the sides on a face add up to its outward normal" + wr, cx + " face " + vk::str(k.first), SF);
      VI ks; m.cell_get_corners(c, &ks); for (int k : ks) { int n = m.corner_get_node(k); double v = m.corner_volume(k, rc); vk::feq(v, atn[n], "corner volume is the sum of its wedges" + wr, cx + " node " + vk::str(n), SV); vk::ok(v > 0, "corner volume is positive" + wr, cx); sumC += v; }
      vk::feq(sumC, g.vol, "corners fill the cell" + wr, cx, SV); }
    // shapes of corners
    VI ks; m.cell_get_corners(c, &ks); for (int k : ks) { int n = m.corner_get_node(k); std::string kx = cx + " corner at node " + vk::str(n); VI ws; m.corner_get_wedges(k, &ws); double vol = m.corner_volume(k);
      std::vector<Point> p = junkp(); m.corner_get_coordinates(k, &p);
      std::vector<V3> want = {r.X[n]}; std::set<int> F, E; for (int w : ws) { F.insert(m.wedge_get_face(w)); E.insert(m.wedge_get_edge(w)); } for (int f : F) want.push_back(fc[f]); if (md == 3) for (int e : E) want.push_back(0.5 * (r.X[r.en[e][0]] + r.X[r.en[e][1]])); want.push_back(g.cen);
      auto sameset = [&](std::vector<Point> const& q) { if (q.size() != want.size()) return false; std::vector<bool> used(q.size(), false); for (auto& w : want) { bool hit = false; for (size_t i = 0; i < q.size() && !hit; i++) if (!used[i] && samep(q[i], w, sd, sc)) { used[i] = true; hit = true; } if (!hit) return false; } return true; };
      vk::ok(sameset(p), "points of a corner", kx);
      if (md == 2 && p.size() == 4) { auto area = [&](std::vector<Point> const& q) { V3 a = P(0, 0, 0); V3 o = v3(q[0]); for (int i = 1; i < 3; i++) a = a + 0.5 * cross(v3(q[i]) - o, v3(q[i + 1]) - o); return dot(a, N); };
        peq(p[0], r.X[n], sd, "first point of a corner is its node", kx, sc); vk::feq(area(p), vol, "points of a corner go around it counter-clockwise", kx, SV);
        std::vector<std::array<int, 2>> fp(3); std::vector<Point> q = junkp(); m.corner_get_facetization(k, &q, &fp); vk::ok(sameset(q), "points of the facetization of a corner", kx); if (q.size() == 4) { peq(q[0], r.X[n], sd, "first point of the facetization of a corner is its node", kx, sc); vk::feq(area(q), vol, "facetization of a corner is counter-clockwise", kx, SV); }
        vk::ok(fp == std::vector<std::array<int, 2>>{{{0, 1}}, {{1, 2}}, {{2, 3}}, {{3, 0}}}, "segments of the facetization of a corner", kx); }
      if (md == 3) { std::vector<std::array<int, 3>> fp(3); std::vector<Point> q = junkp(); m.corner_get_facetization(k, &q, &fp); vk::ok(sameset(q), "points of the facetization of a corner", kx); vk::eq(fp.size(), 2 * ws.size(), "number of facets of a corner", kx);
        V3 sum = P(0, 0, 0); double v6 = 0; bool rng = true; std::map<std::pair<int, int>, int> half;
        for (auto& t : fp) { for (int i = 0; i < 3; i++) if (t[i] < 0 || t[i] >= (int)q.size()) rng = false; if (!rng) break; V3 a = v3(q[t[0]]), b = v3(q[t[1]]), d = v3(q[t[2]]); V3 nn = cross(b - a, d - a); sum = sum + nn; v6 += dot(nn, a - r.X[n]); for (int i = 0; i < 3; i++) half[{t[i], t[(i + 1) % 3]}]++; }
        if (vk::ok(rng, "facet points are in range", kx)) { for (int i = 0; i < 3; i++) vk::feq(sum[i], 0, "facets of a corner close up", kx, SA); vk::feq(v6 / 6, vol, "outward facets enclose the corner's volume", kx, SV); bool cl = true; for (auto& h : half) if (h.second != 1 || !half.count({h.first.second, h.first.first})) cl = false; vk::ok(cl, "facets of a corner form a closed oriented surface", kx); } }
    } }
}
// 1D meshes made by the library; x are the current node positions (by id)
inline void subgeo1(Jali::Mesh const& m, std::vector<double> const& x, bool sph, bool rec = true) {
  double PI4 = 4 * std::acos(-1.0); int n = x.size() - 1; double sc = std::fabs(x[0]) + std::fabs(x[n]);
  auto vol = [&](double a, double b) { return sph ? PI4 / 3 * (b * b * b - a * a * a) : b - a; };
  for (int c = 0; c < n; c++) { std::string cx = "cell " + vk::str(c); VI cn, ss, ks; m.cell_get_nodes(c, &cn); m.cell_get_sides(c, &ss); m.cell_get_corners(c, &ks); double a = x[cn[0]], b = x[cn[1]], mid = 0.5 * (a + b);
    for (int rc = 0; rc < (rec ? 2 : 1); rc++) { std::string wr = rc ? " recomputed" : ""; double sumS = 0, sumW = 0, sumC = 0;
      for (int s : ss) { std::string sx = cx + " side " + vk::str(s); bool left = m.side_get_node(s, 0) == cn[0]; double nd = left ? a : b, v = left ? vol(a, mid) : vol(mid, b);
        vk::feq(m.side_volume(s, rc), v, "side volume" + wr, sx, 1e-9); sumS += m.side_volume(s, rc);
        double A = sph ? PI4 * nd * nd : 1; peq(m.side_facet_normal(s, rc), P(left ? -A : A, 0, 0), 1, "outward facet normal of a side" + wr, sx, 1e-9);
        if (!rc) { std::vector<Point> p = junkp(); m.side_get_coordinates(s, &p); peqs(p, {P(nd), P(mid)}, 1, "coordinates of a side", sx, sc); p = junkp(); m.side_get_coordinates(s, &p, true); if (left) peqs(p, {P(nd), P(mid)}, 1, "coordinates of a side in positive order", sx, sc); else peqs(p, {P(mid), P(nd)}, 1, "coordinates of a side in positive order", sx, sc); }
        for (int i = 0; i < 2; i++) { int w = m.side_get_wedge(s, i); std::string wx = sx + " wedge " + vk::str(i); double wv = m.wedge_volume(w, rc); vk::feq(wv, v / 2, "wedge volume is half its side" + wr, wx, 1e-9); sumW += wv; peq(m.wedge_facet_normal(w, 0, rc), P(left ? -A / 2 : A / 2), 1, "outward facet normal of a wedge" + wr, wx, 1e-9);
          if (!rc) { std::vector<Point> p = junkp(); m.wedge_get_coordinates(w, &p); peqs(p, {P(nd), P(mid)}, 1, "coordinates of a wedge", wx, sc); p = junkp(); m.wedge_get_coordinates(w, &p, true); if (left) peqs(p, {P(nd), P(mid)}, 1, "coordinates of a wedge in positive order", wx, sc); else peqs(p, {P(mid), P(nd)}, 1, "coordinates of a wedge in positive order", wx, sc); } } }
      for (int k : ks) { bool left = m.corner_get_node(k) == cn[0]; double v = m.corner_volume(k, rc); vk::feq(v, left ? vol(a, mid) : vol(mid, b), "corner volume" + wr, cx, 1e-9); sumC += v; }
      double V = vol(a, b); vk::feq(sumS, V, "sides fill the cell" + wr, cx, 1e-9); vk::feq(sumW, V, "wedges fill the cell" + wr, cx, 1e-9); vk::feq(sumC, V, "corners fill the cell" + wr, cx, 1e-9); }
    for (int k : ks) { bool left = m.corner_get_node(k) == cn[0]; double nd = left ? a : b; std::string kx = cx + " corner " + vk::str(k); std::vector<Point> p = junkp(); m.corner_get_coordinates(k, &p); if (left) peqs(p, {P(nd), P(mid)}, 1, "coordinates of a corner", kx, sc); else peqs(p, {P(mid), P(nd)}, 1, "coordinates of a corner", kx, sc);
      std::vector<std::array<int, 1>> fp(3); p = junkp(); m.corner_get_facetization(k, &p, &fp); if (vk::ok(p.size() == 2 && fp.size() == 2, "facetization of a 1D corner has two points", kx)) { std::multiset<double> A, B{nd, mid}; for (auto& t : fp) if (vk::ok(t[0] >= 0 && t[0] < 2, "facet point in range", kx)) A.insert(p[t[0]][0]); std::vector<double> x1(A.begin(), A.end()), x2(B.begin(), B.end()); if (x1.size() == 2) { vk::feq(x1[0], x2[0], "facetization of a 1D corner", kx, sc); vk::feq(x1[1], x2[1], "facetization of a 1D corner", kx, sc); } } }
  }
}
}
#endif
