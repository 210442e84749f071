// C21: histories of materials and multi-material vectors
#include "tiles.hh"
#include "JaliState.h"
#include <deque>
using namespace ref;
typedef std::shared_ptr<Jali::State> StP;
static Entity_kind const CK = Entity_kind::CELL;
static auto const CC = Jali::Data_layout::CELL_CENTRIC; static auto const MC = Jali::Data_layout::MATERIAL_CENTRIC;
static char const* MAT[] = {"steel", "air", "gas", "water", "ice", "oil", "sand", "clay", "rock", "lead", "zinc", "brass"};
static std::string matname(int i) { return i < 12 ? std::string(MAT[i]) : "m" + std::to_string(i); }
struct Op { enum K { ADD, REM, REMN, CELLS, OUT, VEC, WRITE, SET } k; int a; int b; };
struct Mat { std::string name; std::set<int> cells; int uid; };
struct Vec { int dom, T; std::map<std::pair<int, int>, int> val; };   // (material uid, cell) -> value written
template <class T, class D> struct V { typedef Jali::MultiStateVector<T, D> SV; };
struct World {
  std::shared_ptr<Jali::Mesh> m; std::vector<TileP> t; StP s; int nc; std::vector<VI> cellsets;
  std::vector<Mat> M; std::vector<Vec> vecs; int uid, val, nset; std::vector<Jali::StateVectorBase*> vp;
  std::map<std::string, std::set<int>> left;        // cell sets in the mesh by name
};
static std::string vname(int i) { return "v" + std::to_string(i); }
template <class T, class D> void addvec(World& w, std::shared_ptr<D> d, int how) {
  int i = w.vecs.size(); Vec v; v.dom = std::is_same<D, Jali::Mesh>::value ? 0 : 1; v.T = std::is_same<T, int>::value ? 0 : 1; auto t = Entity_type::ALL; std::string n = vname(i);
  int nm = w.M.size(); if (how == 0) w.vp.push_back(&w.s->template add<T, D, Jali::MultiStateVector>(n, d, CK, t));
  else if (how == 1) { int x = ++w.val; w.vp.push_back(&w.s->template add<T, D, Jali::MultiStateVector>(n, d, CK, t, T(x))); for (auto& m : w.M) for (int c : m.cells) v.val[{m.uid, c}] = x; }
  else { bool cc = how == 2; int R = cc ? w.nc : nm, C = cc ? nm : w.nc; std::vector<std::vector<T>> tab(R, std::vector<T>(C)); for (int c = 0; c < w.nc; c++) for (int m = 0; m < nm; m++) { int x = ++w.val; tab[cc ? c : m][cc ? m : c] = T(x); if (w.M[m].cells.count(c)) v.val[{w.M[m].uid, c}] = x; } std::vector<T const*> p; for (auto& r : tab) p.push_back(r.data()); p.push_back(nullptr); w.vp.push_back(&w.s->add(n, d, CK, t, cc ? CC : MC, (T const* const*)p.data())); }
  w.vecs.push_back(v); }
template <class T, class D> void write(World& w, int i, int way) {
  auto& v = *dynamic_cast<Jali::MultiStateVector<T, D>*>(w.vp[i]); auto& mv = w.vecs[i];
  if (way == 3) { T x = T(++w.val); v.assign(x); for (auto& m : w.M) for (int c : m.cells) mv.val[{m.uid, c}] = w.val; return; }
  for (size_t m = 0; m < w.M.size(); m++) { int k = 0; for (int c : VI(w.s->material_cells(m))) { int j = k++; if (way == 4 && !(m + 1 == w.M.size() && j + 1 == (int)w.M[m].cells.size())) continue; T x = T(++w.val); if (way == 0 || way == 4) v(m, c) = x; else if (way == 1) v(c, m, CC) = x; else v.get_matdata(m)[j] = x; mv.val[{w.M[m].uid, c}] = w.val; } } }
template <class T, class D> void readv(World& w, std::shared_ptr<D> d, int i, std::string const& cx) {
  auto& mv = w.vecs[i]; Jali::MultiStateVector<T, D> h; std::string n = vname(i); if (!vk::ok(w.s->get(n, d, CK, Entity_type::ALL, &h), "vector not found", cx)) return; auto& r = *dynamic_cast<Jali::MultiStateVector<T, D>*>(w.vp[i]); auto const& cr = r; auto const& ch = h;
  std::string k = mv.dom ? " on a tile" : ""; if (!vk::eq(r.size(), w.M.size(), "materials of a vector" + k, cx) || !vk::eq(h.size(), w.M.size(), "materials of a retrieved vector" + k, cx)) return;
  for (size_t m = 0; m < w.M.size(); m++) { auto const& cells = w.s->material_cells(m); std::string c2 = cx + " " + n + " material " + std::to_string(m); if (!vk::eq(r.size(m), cells.size(), "entries of a material in a vector" + k, c2)) return; vk::ok(r.get_matdata(m).size() == cells.size() && (size_t)(cr.cend(m) - cr.cbegin(m)) == cells.size() && h.size(m) == cells.size(), "entries of a material in a vector" + k, c2);
    for (size_t j = 0; j < cells.size(); j++) { int c = cells[j]; auto it = mv.val.find({w.M[m].uid, c}); if (it == mv.val.end()) continue; T x = T(it->second); vk::cmp(8);
      if (!(r.get_matdata(m)[j] == x && cr.cbegin(m)[j] == x)) { vk::fail("material-centred value" + k, c2 + " cell " + std::to_string(c) + " got " + vk::str(r.get_matdata(m)[j]) + " expected " + vk::str(x)); return; }
      if (!(r(m, c) == x && cr(m, c) == x && cr(m, c, MC) == x && ch(m, c) == x)) { vk::fail("value by material and cell" + k, c2 + " cell " + std::to_string(c) + " got " + vk::str(cr(m, c)) + " expected " + vk::str(x)); return; }
      if (!(r(c, m, CC) == x && cr(c, m, CC) == x)) { vk::fail("value by cell and material" + k, c2 + " cell " + std::to_string(c)); return; } }
    for (int c = 0; c < w.nc; c++) if (!w.M[m].cells.count(c)) { vk::ok(cr(m, c) == T(0) && cr(c, m, CC) == T(0), "value of a material absent from the cell", c2); bool thrown = false; try { r(m, c) = T(0); } catch (std::exception&) { thrown = true; } vk::ok(thrown, "writing a material absent from the cell accepted", c2); } } }
static void examine(World& w, std::string const& cx) {
  auto& s = *w.s; int nm = w.M.size(); if (!vk::eq(s.num_materials(), nm, "number of materials", cx)) return;
  for (int m = 0; m < nm; m++) { auto& mm = w.M[m]; std::string c2 = cx + " material " + std::to_string(m); vk::eq(s.material_name(m), mm.name, "name of a material", c2); vk::eq(s.material_index_by_name(mm.name), m, "index of a material by name", c2); auto set = s.material_set(m); if (!vk::ok(set && set->name() == mm.name && set->kind() == CK && s.material_set_by_name(mm.name) == set, "cell set of a material", c2)) return;
    VI cells = s.material_cells(m); VI want(mm.cells.begin(), mm.cells.end()); if (!vk::eq(vk::sorted(cells), want, "cells of a material", c2)) return; vk::eq(s.num_material_cells(m), (int)want.size(), "number of cells of a material", c2); vk::ok(set->entities() == cells, "cells of a material are its set's", c2);
    for (int c = 0; c < w.nc; c++) { int at = std::find(cells.begin(), cells.end(), c) - cells.begin(); vk::eq(s.cell_index_in_material(c, m), at == (int)cells.size() ? -1 : at, "index of a cell in a material", c2 + " cell " + std::to_string(c)); } }
  vk::eq(s.num_material_cells(nm), 0, "cells of a material that does not exist", cx); vk::eq(s.num_material_cells(nm + 7), 0, "cells of a material that does not exist", cx); for (int m : {nm, nm + 1, nm + 7}) vk::eq((int)s.material_cells(m).size(), 0, "cells of a material that does not exist", cx);
  for (auto n : MAT) { bool have = false; for (auto& m : w.M) if (m.name == n) have = true; if (!have) vk::ok(s.material_index_by_name(n) == -1 && !s.material_set_by_name(n), "material that does not exist found by name", cx); }
  for (int c = 0; c < w.nc; c++) { VI want; for (int m = 0; m < nm; m++) if (w.M[m].cells.count(c)) want.push_back(m); std::string c2 = cx + " cell " + std::to_string(c); if (!vk::eq(vk::sorted(s.cell_materials(c)), want, "materials of a cell", c2)) return; vk::eq(s.num_cell_materials(c), (int)want.size(), "number of materials of a cell", c2); }
  for (size_t i = 0; i < w.vecs.size() && !vk::failed(); i++) { if (w.vecs[i].dom == 0) { if (w.vecs[i].T) readv<double>(w, w.m, i, cx); else readv<int>(w, w.m, i, cx); } else { if (w.vecs[i].T) readv<double>(w, w.t[0], i, cx); else readv<int>(w, w.t[0], i, cx); } }
}
// performs an operation on both sides; false when it does not apply
static bool step(World& w, Op const& o, std::string& cx) {
  auto& s = *w.s; int nm = w.M.size();
  switch (o.k) {
    case Op::ADD: { if (o.b < 0 && !nm) return false; std::string n = matname(o.a); VI const& cr = o.b < 0 ? s.material_cells(-1 - o.b < nm ? -1 - o.b : 0) : w.cellsets[o.b]; VI cs = cr; cx += "add material " + n + vk::str(cs) + "; "; for (auto& m : w.M) if (m.name == n) { s.add_material(n, cr); return true; }
      s.add_material(n, cr); Mat m; m.name = n; m.uid = ++w.uid; std::set<int> lo(cs.begin(), cs.end()), hi = lo, got; hi.insert(w.left[n].begin(), w.left[n].end()); if (s.num_materials() == nm + 1) { auto& g = s.material_cells(nm); got.insert(g.begin(), g.end()); }
      // a cell set of this name that is in the mesh already may contribute its cells
      bool good = std::includes(got.begin(), got.end(), lo.begin(), lo.end()) && std::includes(hi.begin(), hi.end(), got.begin(), got.end()); m.cells = good ? got : lo; w.M.push_back(m); w.left[n] = m.cells; return true; }
    case Op::REM: case Op::REMN: { if (o.a >= nm) { if (o.a > nm || o.k == Op::REMN) return false; cx += "remove material that is not there; "; s.rem_material(o.a); s.rem_material_by_name("nothing"); return true; } cx += "remove material " + std::to_string(o.a) + (o.k == Op::REMN ? " by name; " : "; "); if (o.k == Op::REM) s.rem_material(o.a); else s.rem_material_by_name(w.M[o.a].name); w.M.erase(w.M.begin() + o.a); return true; }
    case Op::CELLS: { if (o.a >= nm) return false; VI const& cr = o.b < 0 ? s.material_cells((o.a - 1 - o.b) % nm) : w.cellsets[o.b]; VI cs = cr; cx += "add cells " + vk::str(cs) + " to " + std::to_string(o.a) + "; "; s.add_cells_to_material(o.a, cr); w.M[o.a].cells.insert(cs.begin(), cs.end()); w.left[w.M[o.a].name] = w.M[o.a].cells; return true; }
    case Op::OUT: { if (o.a >= nm) return false; VI cs = w.cellsets[o.b]; cx += "take cells " + vk::str(cs) + " from " + std::to_string(o.a) + "; "; bool done = false; try { s.rem_cells_from_material(o.a, cs); done = true; } catch (std::exception&) {} // documented as not implemented
      if (done) { for (int c : cs) { w.M[o.a].cells.erase(c); for (auto& v : w.vecs) v.val.erase({w.M[o.a].uid, c}); } w.left[w.M[o.a].name] = w.M[o.a].cells; } return true; }
    case Op::VEC: { if (w.vecs.size() >= 2) return false; cx += "add vector way " + std::to_string(o.a) + " dom " + std::to_string(o.b) + "; "; if (o.b == 0) addvec<double>(w, w.m, o.a); else if (o.b == 1) addvec<double>(w, w.t[0], o.a); else addvec<int>(w, w.m, o.a); return true; }
    case Op::WRITE: { if (w.vecs.empty() || !nm) return false; cx += "write way " + std::to_string(o.a) + "; "; for (size_t i = 0; i < w.vecs.size(); i++) { if (w.vecs[i].dom == 0) { if (w.vecs[i].T) write<double, Jali::Mesh>(w, i, o.a); else write<int, Jali::Mesh>(w, i, o.a); } else write<double, Jali::MeshTile>(w, i, o.a); } return true; }
    default: { std::string n = MAT[o.a]; if (w.m->find_meshset(n, CK)) return false; cx += "make cell set " + n + "; "; VI ow, gh; for (int c : w.cellsets[o.b]) (w.m->entity_get_type(CK, c) == Entity_type::PARALLEL_OWNED ? ow : gh).push_back(c); Jali::make_meshset(n, *w.m, CK, ow, gh, true); w.left[n] = std::set<int>(w.cellsets[o.b].begin(), w.cellsets[o.b].end()); return true; }
  }
}
static std::vector<int> canon(World& w) { std::vector<int> k; for (size_t m = 0; m < w.M.size(); m++) { k.push_back(-1); k.push_back(w.M[m].name[0]); for (int c : w.s->material_cells(m)) k.push_back(c); } for (auto& v : w.vecs) { k.push_back(-2 - v.dom * 2 - v.T); for (size_t m = 0; m < w.M.size(); m++) for (int c : w.M[m].cells) k.push_back(v.val.count({w.M[m].uid, c}) > 0); } for (auto n : MAT) if (auto s = w.m->find_meshset(n, CK)) { k.push_back(-9); k.push_back(n[0]); for (int c : s->entities()) k.push_back(c); } return k; }
struct Mk { std::string name; std::function<std::shared_ptr<Jali::Mesh>()> make; std::vector<VI> cs; };
static void start(Mk const& k, World& w) { w.m = k.make(); w.t.clear(); for (auto t : w.m->tiles()) w.t.push_back(t); w.s = Jali::State::create(w.m); w.nc = w.m->num_entities(CK, Entity_type::ALL); w.cellsets = k.cs; w.M.clear(); w.vecs.clear(); w.vp.clear(); w.left.clear(); w.uid = w.nset = 0; w.val = 0; }
static void explore(Mk const& k, std::vector<Op> const& ops, int depth, std::vector<int> const& prefix) {
  typedef std::vector<int> H; std::deque<H> q; std::set<std::vector<int>> seen; q.push_back(prefix); { World w; start(k, w); examine(w, "start"); std::string cx; for (int p : prefix) if (!step(w, ops[p], cx)) { vk::trivial(); return; } examine(w, cx); } if (vk::failed()) return; vk::states();
  while (!q.empty()) { H h = q.front(); q.pop_front(); vk::beat();
    for (size_t oi = 0; oi < ops.size(); oi++) { World w; start(k, w); std::string cx; for (int p : h) step(w, ops[p], cx); vk::set_current(cx + " ..."); if (!step(w, ops[oi], cx)) continue; vk::set_current(cx); vk::transitions(); vk::traces(); examine(w, ""); if (vk::failed()) return;
      if (seen.insert(canon(w)).second) { vk::states(); if ((int)h.size() + 1 < depth) { H n = h; n.push_back(oi); q.push_back(n); } } } }
}
VK_CHECK("C21", "model_checking", "breadth-first search over material states (ordered materials with their ordered cells, up to two multi-material vectors on the mesh or a tile with the entries written, cell sets of the mesh by name), operations: add material (3 names x 6 cell lists with ghosts, repeats and the empty list, or the cells of a material just as the state lists them), remove by index or name, add cells, remove cells (may refuse), add a vector in four ways, write all or one entry in five ways, make a cell set by the name of a material; long histories of eleven materials on 42 cells (every time of adding vectors, every material removed); histories of up to 91 materials; 43 names that are easily taken for one another; every transition replayed from its whole history on a real mesh and State and compared with a reference relation through every query; a case is a mesh, a set of operations and the first operation; first operations that do not apply are trivial") {
  auto rm = [](std::vector<int> gh) { return [=] { Opt o; o.ghost = gh; Req q; q.f = true; q.tiles = 1; return std::static_pointer_cast<Jali::Mesh>(make(elaborate(quads(2, 2), o), q)); }; };
  std::vector<Mk> ms = {{"quads2x2", rm({}), {{0, 1}, {2, 1}, {}, {3, 3}, {2}, {3, 2, 1, 0}}}, {"quads2x2 ghosts", rm({0, 0, 1, 1}), {{0, 1}, {2, 1}, {}, {3, 3}, {2}, {3, 2, 1, 0}}}, {"simple 1d", [] { Req q; q.tiles = 1; q.c = q.w = q.s = q.e = true; return simple1(3, q); }, {{0, 1}, {2, 1}, {}, {2, 2}, {2}, {2, 1, 0}}}};
  for (auto& mk : ms) {
    std::vector<Op> A, B; auto rep = [](std::vector<Op>& v, Op::K k, std::vector<int> as, std::vector<int> bs) { for (int a : as) for (int b : bs) v.push_back({k, a, b}); };
    // A: all operations; B: fewer cell lists and ways, deeper
    rep(A, Op::ADD, {0, 1, 2}, {0, 1, 2, 3, 4, 5}); rep(A, Op::ADD, {1}, {-1, -2}); rep(A, Op::REM, {0, 1, 2}, {0}); rep(A, Op::REMN, {0, 1}, {0}); rep(A, Op::CELLS, {0, 1}, {-2, -1, 0, 1, 2, 3, 4, 5}); rep(A, Op::OUT, {0}, {0, 4}); rep(A, Op::VEC, {0, 1, 2, 3}, {0, 1, 2}); rep(A, Op::WRITE, {0, 1, 2, 3, 4}, {0}); rep(A, Op::SET, {0, 1}, {0, 4});
    rep(B, Op::VEC, {1}, {0, 1}); rep(B, Op::ADD, {0, 1}, {0, 1}); rep(B, Op::ADD, {2}, {4}); rep(B, Op::REM, {0, 1}, {0}); rep(B, Op::CELLS, {0, 1}, {0, 4}); rep(B, Op::WRITE, {2}, {0});
    int dA = vk::thorough ? 5 : 4, dB = vk::thorough ? 8 : 6;
    for (size_t f = 0; f < A.size(); f++) vk::run(mk.name + " all operations, depth " + std::to_string(dA) + " first " + std::to_string(f), [=] { explore(mk, A, dA, {(int)f}); });
    for (size_t f = 0; f < B.size(); f++) for (size_t g = 0; g < B.size(); g++) vk::run(mk.name + " fewer operations, depth " + std::to_string(dB) + " first " + std::to_string(f) + " " + std::to_string(g), [=] { explore(mk, B, dB, {(int)f, (int)g}); });
  }
  // many materials on many cells: ten materials, vectors added after the k-th, then material i taken out, cells added, material put back
  { Mk big; big.name = "quads7x6 ghosts"; Opt o; for (int i = 0; i < 42; i++) o.ghost.push_back(i % 5 == 4); Ref r = elaborate(quads(7, 6), o); big.make = [r] { Req q; q.f = true; q.tiles = 1; return std::static_pointer_cast<Jali::Mesh>(make(r, q)); };
    for (int x = 0; x < 12; x++) { VI v; for (int c = 0; c < 42; c++) if (x < 6 ? c % (x + 2) == 0 : c >= 5 * (x - 6) && c < 5 * (x - 6) + 14) v.push_back(c); if (x % 2) std::reverse(v.begin(), v.end()); big.cs.push_back(v); }
    { VI v; for (int c = 0; c < 42; c++) v.push_back((c * 11 + 3) % 42); big.cs.push_back(v); }
    for (int k = 0; k <= 10; k++) for (int i = 0; i < 10; i++) vk::run(big.name + " vectors after " + std::to_string(k) + " materials, material " + std::to_string(i) + " removed", [=] {
      World w; start(big, w); std::string cx; auto op = [&](Op::K kd, int a, int b) { if (vk::failed()) return; step(w, {kd, a, b}, cx); vk::set_current(cx); vk::transitions(); vk::states(); examine(w, ""); };
      for (int m = 0; m < 10; m++) { if (m == k) { op(Op::VEC, i % 4, i % 2); op(Op::VEC, (i + 1) % 4, 2); } op(Op::ADD, m, m); if (m == (k + 3) % 10) op(Op::WRITE, i % 3, 0); } if (k == 10) { op(Op::VEC, i % 4, i % 2); op(Op::VEC, (i + 1) % 4, 2); }
      op(Op::WRITE, (i + k) % 5, 0); op(Op::CELLS, (i + 4) % 10, 10 + k % 3); op(Op::WRITE, 4, 0); op(k % 2 ? Op::REM : Op::REMN, i, 0); op(Op::CELLS, k % 9, 11); op(Op::ADD, 10, 12); op(Op::WRITE, k % 3, 0); op(Op::ADD, i, 12 - (i % 2)); op(Op::REM, 0, 0); op(Op::REM, w.M.size() - 1, 0); op(Op::CELLS, (i + k) % 8, 12); op(Op::OUT, 0, 4); vk::traces(); });
    // dozens of materials: vectors added before the k-th, all written, one taken out of the middle, another added
    Mk many = big; many.name = "quads7x6 ghosts, many materials"; many.cs.clear(); for (int x = 0; x < 100; x++) { VI v; for (int c = 0; c < 42; c++) if ((c * 5 + x) % (x % 9 + 2) == 0) v.push_back(c); if (x % 2) std::reverse(v.begin(), v.end()); if (x % 13 == 5) v.clear(); many.cs.push_back(v); }
    for (int n : {13, 17, 33, 65, 90}) for (int k : {0, 1, 9, 16, 32, 63, 64}) if (k < n) vk::run(many.name + " " + std::to_string(n) + ", vectors before " + std::to_string(k), [=] {
      World w; start(many, w); std::string cx; int cnt = 0; auto op = [&](Op::K kd, int a, int b, bool look) { if (vk::failed()) return; step(w, {kd, a, b}, cx); vk::transitions(); vk::states(); vk::beat(); if (look) { vk::set_current(cx); examine(w, ""); } };
      for (int m = 0; m < n; m++) { if (m == k) { op(Op::VEC, (k + 1) % 4, n % 2, true); op(Op::VEC, k % 4, 2, true); } op(Op::ADD, m, m, m % 16 == 15 || m + 1 == n); if (m == k + 3) op(Op::WRITE, 0, 0, true); }
      op(Op::WRITE, 1, 0, true); op(Op::WRITE, 3, 0, true); op(Op::WRITE, 2, 0, true);
      for (int r : {n / 2, n - 2, 0}) { op(r % 2 ? Op::REM : Op::REMN, r, 0, true); op(Op::CELLS, (r + 3) % w.M.size(), (r + 40) % 100, true); op(Op::WRITE, cnt++ % 3, 0, true); } op(Op::ADD, n, n, true); op(Op::ADD, n / 2, n / 2 + 1, true); op(Op::WRITE, 0, 0, true); vk::traces(); }); }
  // names that are easily taken for one another, half of them materials
  for (int par = 0; par < 4; par++) vk::run("like names " + std::to_string(par), [=] { auto nm = vk::names(); int n = nm.size(); Req q; q.f = true; auto m = make(elaborate(quads(3, 2), Opt()), q); auto s = Jali::State::create(m); std::vector<int> in; auto cs = [](int i) { VI v; for (int c = 0; c < 6; c++) if ((i >> c & 1) || c == i % 6) v.push_back(c); return v; };
    auto look = [&](std::string cx) { vk::states(); vk::eq(s->num_materials(), (int)in.size(), "number of materials", cx); for (int i = 0; i < n; i++) { int k = std::find(in.begin(), in.end(), i) - in.begin(); bool have = k < (int)in.size(); std::string c2 = cx + " \"" + nm[i] + "\""; vk::eq(s->material_index_by_name(nm[i]), have ? k : -1, "index of a material by name", c2); vk::eq((bool)s->material_set_by_name(nm[i]), have, "cell set of a material by name", c2); if (have && k < s->num_materials()) { vk::eq(s->material_name(k), nm[i], "name of a material", c2); vk::eq(vk::sorted(s->material_cells(k)), cs(i), "cells of a material", c2); } } };
    for (int j = 0; j < n; j++) { int i = par >= 2 ? n - 1 - j : j; if ((i + par) % 2) continue; s->add_material(nm[i], cs(i)); in.push_back(i); vk::transitions(); look("added"); if (vk::failed()) return; }
    while (!in.empty()) { int k = in.size() > 1 ? (in.size() * 5 + par) % in.size() : 0; s->rem_material_by_name(nm[in[k]]); in.erase(in.begin() + k); vk::transitions(); look("removed"); if (vk::failed()) return; } vk::traces(); });
}
