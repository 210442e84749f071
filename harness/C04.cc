// C04: cell, face and edge geometry against exact shapes
#include "refmesh.hh"
using namespace ref;
// point location: lattice of query points around every convex cell
static void inside(Ref const& r, Jali::Mesh const& m, double L) {
  if (r.sd != r.md) return;
  for (int c = 0; c < r.nc(); c++) if (r.ctype[c] != Entity_type::BOUNDARY_GHOST && (r.nc() < 1000 || c % 97 == 0 || c > r.nc() - 60)) {
    std::vector<std::pair<V3, V3>> H;    // point, outward unit normal
    for (size_t k = 0; k < r.cf[c].size(); k++) { auto x = xs(r, r.fn[r.cf[c][k]]); V3 n; if (r.md == 3) { n = polyg(x).nrm; } else if (r.md == 2) { V3 e = x[1] - x[0]; n = P(e[1], -e[0], 0); } else n = P(1, 0, 0); n = (r.cfd[c][k] / len(n)) * n; H.push_back({x[0], n}); }
    bool convex = true; V3 lo = r.X[r.cn[c][0]], hi = lo;
    for (int v : r.cn[c]) { for (auto& h : H) if (dot(r.X[v] - h.first, h.second) > 1e-9 * L) convex = false; for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], r.X[v][i]); hi[i] = std::max(hi[i], r.X[v][i]); } }
    if (!convex) continue;
    int N = r.md == 1 ? 16 : r.md == 2 ? 8 : 6;
    for (int i = -1; i <= N + 1; i++) for (int j = r.md > 1 ? -1 : 0; j <= (r.md > 1 ? N + 1 : 0); j++) for (int k = r.md > 2 ? -1 : 0; k <= (r.md > 2 ? N + 1 : 0); k++) {
      V3 p = lo; double f[3] = {(i + 0.03) / N, (j + 0.07) / N, (k + 0.11) / N}; for (int d = 0; d < r.md; d++) p[d] = lo[d] + f[d] * (hi[d] - lo[d]);
      double mx = -1e99; for (auto& h : H) mx = std::max(mx, dot(p - h.first, h.second)); if (std::fabs(mx) < 1e-7 * L) continue;
      vk::ok(m.point_in_cell(pt(p, r.sd), c) == (mx < 0), mx < 0 ? "point strictly inside a convex cell" : "point strictly outside a convex cell", "cell " + vk::str(c) + " point " + vk::str(p)); } }
}
static void one(Ref const& r, Req const& q) {
  auto mp = make(r, q); Jali::Mesh& m = *mp; double sc = 0, L = 0;
  for (auto& x : r.X) for (int i = 0; i < 3; i++) sc = std::max(sc, std::fabs(x[i]));
  for (auto& x : r.X) L = std::max(L, len(x - r.X[0]));
  double SL = L, SA = L * L, SV = r.md == 1 ? L : r.md == 2 ? L * L : L * L * L;
  for (int c = 0; c < r.nc(); c++) { std::string cx = "cell " + vk::str(c);
    if (r.ctype[c] == Entity_type::BOUNDARY_GHOST) { vk::eq(m.cell_volume(c), 0.0, "volume of a boundary ghost cell", cx); peq(m.cell_centroid(c), P(0, 0, 0), r.sd, "centroid of a boundary ghost cell", cx, sc); continue; }
    CellG g = cellg(r, c);
    for (int rec = 0; rec < 2; rec++) { std::string w = rec ? " recomputed" : ""; vk::feq(m.cell_volume(c, rec), g.vol, "cell volume" + w, cx, SV); peq(m.cell_centroid(c, rec), g.cen, r.sd, "cell centroid" + w, cx, sc); } }
  if (q.f) for (int f = 0; f < r.nf(); f++) { std::string cx = "face " + vk::str(f); auto x = xs(r, r.fn[f]); double area; V3 cen, nat; double SF;
    if (r.md == 3) { PolyG g = polyg(x); area = g.area; cen = g.cen; nat = g.nrm; SF = SA; }
    else if (r.md == 2) { V3 e = x[1] - x[0]; area = len(e); cen = 0.5 * (x[0] + x[1]); nat = P(e[1], -e[0], 0); SF = SL; }
    else { area = 1; cen = x[0]; nat = P(1, 0, 0); SF = 1; }
    for (int rec = 0; rec < 2; rec++) { std::string w = rec ? " recomputed" : ""; vk::feq(m.face_area(f, rec), area, "face area" + w, cx, SF); peq(m.face_centroid(f, rec), cen, r.sd, "face centroid" + w, cx, sc);
      int o = 7; Point n = m.face_normal(f, rec, -1, &o);
      if (r.sd == r.md) { peq(n, nat, r.sd, "natural face normal" + w, cx, SF); vk::eq(o, 1, "orientation of the natural normal", cx); n = m.face_normal(f, rec); peq(n, nat, r.sd, "natural face normal" + w, cx, SF); }
      V3 sum = P(0, 0, 0);
      for (int c : r.fc[f]) if (r.ctype[c] != Entity_type::BOUNDARY_GHOST) { int k = std::find(r.cf[c].begin(), r.cf[c].end(), f) - r.cf[c].begin(); int dir = r.cfd[c][k]; V3 want;
        if (r.sd == r.md) want = (double)dir * nat; else { PolyG g = polyg(xs(r, r.cn[c])); V3 e = (double)dir * (x[1] - x[0]); want = cross(e, (1 / g.area) * g.nrm); }
        o = 7; n = m.face_normal(f, rec, c, &o); peq(n, want, r.sd, "outward face normal" + w, cx + " of cell " + vk::str(c), SF); vk::eq(o, dir, "orientation of the outward normal", cx + " cell " + vk::str(c)); } } }
  if (q.f) for (int c = 0; c < r.nc(); c++) if (r.ctype[c] != Entity_type::BOUNDARY_GHOST) for (int rec = 0; rec < 2; rec++) { VI f; m.cell_get_faces(c, &f); V3 s = P(0, 0, 0); for (int k : f) s = s + v3(m.face_normal(k, rec, c)); for (int i = 0; i < 3; i++) vk::feq(s[i], 0, "outward normals of a cell sum to zero", "cell " + vk::str(c), r.md == 3 ? SA : r.md == 2 ? SL : 1); }
  inside(r, m, L);
  if (q.e) for (int e = 0; e < r.ne(); e++) { std::string cx = "edge " + vk::str(e); int a = r.en[e][0], b = r.en[e][1]; V3 v = r.X[b] - r.X[a];
    peq(m.edge_centroid(e), 0.5 * (r.X[a] + r.X[b]), r.sd, "edge centroid", cx, sc);
    for (int rec = 0; rec < 2; rec++) { std::string w = rec ? " recomputed" : ""; vk::feq(m.edge_length(e, rec), len(v), "edge length" + w, cx, SL); peq(m.edge_vector(e, rec), v, r.sd, "edge vector" + w, cx, SL);
      int o = 7; peq(m.edge_vector(e, rec, -1, &o), v, r.sd, "edge vector" + w, cx, SL); vk::eq(o, 1, "orientation of the natural edge vector", cx);
      o = 7; peq(m.edge_vector(e, rec, a, &o), v, r.sd, "edge vector from its first node" + w, cx, SL); vk::eq(o, 1, "orientation of the edge vector from its first node", cx);
      if (a != b) { o = 7; peq(m.edge_vector(e, rec, b, &o), -1.0 * v, r.sd, "edge vector from its second node" + w, cx, SL); vk::eq(o, -1, "orientation of the edge vector from its second node", cx); } } }
}
VK_CHECK("C04", "exploration", "one case = one reference mesh (1D, 2D, 3D and surface family, and larger meshes with nodes of 20 cells, cells of 14 faces, faces of 12 edges, and meshes of 1728 and 34200 cells) x one affine map (identity, shear, rotation, small scale; very small, very large, away from the origin) x ghost labelling x natural-direction pattern x requested kinds; every cell, face and edge, stored and recomputed values, point location on a lattice of query points around every convex cell, natural normals and normals/vectors with respect to every cell/node, compared with exact values computed from node positions (relative tolerance 1e-9)") {
  Exceptions::set_exception_behavior_raise();
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end()); ds.push_back(chain({0, 1, 2, 4})); ds.push_back(chain({-1, 1}));
  for (auto& d : ds) for (auto& t : affines(d.md, d.sd)) for (auto o : labellings(d.cells.size(), vk::thorough, d.md > 1 && d.sd == d.md)) for (int fl = 0; fl < (d.md == 1 ? 1 : vk::thorough ? 4 : 3); fl++) for (int rqm = 0; rqm < 4; rqm++) {
    o.flip = fl == 0 ? 0 : fl == 1 ? 2 : fl == 2 ? 3 : 1; Req q; q.f = rqm & 1; q.e = rqm & 2; if (d.md == 3 && !q.f) continue; if (rqm == 0 && fl) continue;
    vk::run(d.name + "@" + t.name + "/" + o.str() + (q.f ? " f" : "") + (q.e ? " e" : ""), [&] { if (d.cells.size() == 1 && t.name == "id") vk::trivial(); one(elaborate(mapped(d, t), o), q); }); }
  for (auto& d : ds) for (auto& t : extremes(d.md, d.sd)) for (int gh = 0; gh < (d.cells.size() > 1 ? 2 : 1); gh++) { Opt o; if (gh) o.ghost = {1}; o.flip = d.md == 1 ? 0 : 3; Req q; q.f = q.e = true; vk::run(d.name + "@" + t.name + "/" + o.str(), [&] { one(elaborate(mapped(d, t), o), q); }); }
  { auto b = allbig(); auto l = familybig(1); b.insert(b.end(), l.begin(), l.end());
    for (auto& d : b) { auto A = affines(d.md, d.sd); for (size_t a = 0; a < A.size() && a < 2; a++) for (auto o : labellings(d.cells.size(), false, false)) { if (a && !o.ghost.empty()) continue; o.flip = d.md == 1 ? 0 : 3; Req q; q.f = q.e = true;
      vk::run(d.name + "@" + A[a].name + "/" + o.str() + " fe", [&] { one(elaborate(mapped(d, A[a]), o), q); }); } } }
  for (auto g : giants()) { Req q; q.f = q.e = true; vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " many entities", [&] { one(elaborate(g.d, g.o), q); }); }
}
