// C20: contents of state vectors under histories of writing, copying,
// assigning, retrieving and resizing; sizes and initial values
#include "tiles.hh"
#include "JaliState.h"
using namespace ref;
typedef std::array<double, 3> A3;
typedef std::shared_ptr<Jali::State> StP;
static Entity_kind const CK = Entity_kind::CELL;
template <class T> T mk(int v) { return T(v); }
template <> A3 mk<A3>(int v) { return A3{{v + .25, v + .5, -1. * v}}; }
template <> std::string mk<std::string>(int v) { return "value number " + std::to_string(v); }
typedef std::vector<int> VB;   // contents as codes of values
template <class T> int code(T const& t, int maxv) { for (int v = 0; v <= maxv; v++) if (mk<T>(v) == t) return v; return -1; }
// -------- uniform access to uni- and multi-valued vectors, by flat position
template <class T, class D> struct Acc { typedef Jali::UniStateVector<T, D> SV;
  static int const ways = 5;
  static VB read(SV& v, int maxv, std::string const& cx) { VB r; SV const& c = v; size_t n = v.size(); vk::ok(c.size() == n && (size_t)(v.end() - v.begin()) == n && (size_t)(c.cend() - c.cbegin()) == n, "sizes of a vector disagree", cx);
    for (size_t i = 0; i < n; i++) { r.push_back(code<T>(v[i], maxv)); vk::ok(c[i] == v[i] && v.begin()[i] == v[i] && c.cbegin()[i] == v[i] && v.get_raw_data()[i] == v[i] && c.get_raw_data()[i] == v[i], "ways of reading a vector disagree", cx); } return r; }
  static bool write(SV& v, int way, int val, VB& b) { int n = b.size(); if (!n || (int)v.size() != n) return false; T x = mk<T>(val); int i = way == 0 ? 0 : way == 1 ? n - 1 : way == 2 ? n / 2 : way == 3 ? 0 : n - 1;
    switch (way) { case 0: case 4: v[i] = x; break; case 1: v.get_raw_data()[i] = x; break; case 2: *(v.begin() + i) = x; break; default: for (auto& e : v) e = x; for (auto& c : b) c = val; return true; } b[i] = val; return true; }
  static int const resizes = 4;
  static void resize(SV& v, int k, int val, VB& b) { size_t n = b.size(); if (k == 0) { v.resize(n + 2, mk<T>(val)); b.resize(n + 2, val); } else if (k == 1) { v.resize(n / 2); b.resize(n / 2); } else if (k == 2) { v.clear(); b.clear(); } else { v.resize(n ? n - 1 : 0, mk<T>(val)); b.resize(n ? n - 1 : 0); } }
  static int flat(Jali::State&) { return -1; }
};
// multi: flat position = all entries of material 0, then material 1...
template <class T> struct AccM { typedef Jali::MultiStateVector<T, Jali::Mesh> SV; static Jali::State* S;
  static int const ways = 6; static int const resizes = 0;
  static VB read(SV& v, int maxv, std::string const& cx) { VB r; SV const& c = v; int nm = S->num_materials(); if (!vk::eq((int)v.size(), nm, "number of materials of a vector", cx)) return r;
    for (int m = 0; m < nm; m++) { auto const& cells = S->material_cells(m); size_t n = cells.size(); vk::eq(v.size(m), n, "number of entries of a material", cx); vk::ok((size_t)(v.end(m) - v.begin(m)) == n && (size_t)(c.cend(m) - c.cbegin(m)) == n && v.get_matdata(m).size() == n && c.get_matdata(m).size() == n, "sizes of a vector disagree", cx); if (vk::failed()) return r;
      for (size_t i = 0; i < n; i++) { T x = v(m, cells[i]); r.push_back(code<T>(x, maxv)); vk::ok(c(m, cells[i]) == x && v(cells[i], m, Jali::Data_layout::CELL_CENTRIC) == x && c(cells[i], m, Jali::Data_layout::CELL_CENTRIC) == x && v.begin(m)[i] == x && c.cbegin(m)[i] == x && v.get_raw_data(m)[i] == x && c.get_raw_data(m)[i] == x && v.get_matdata(m)[i] == x && c.get_matdata(m)[i] == x && (*v.get_data())[m][i] == x, "ways of reading a vector disagree", cx); } }
    return r; }
  static bool write(SV& v, int way, int val, VB& b) { if (b.empty()) return false; T x = mk<T>(val); int pos = way == 0 ? 0 : way == 1 ? b.size() - 1 : way == 2 ? b.size() / 2 : way == 3 ? 1 : way == 4 ? b.size() - 2 : b.size() / 2 - 1; int m = 0, i = pos; while (i >= (int)S->material_cells(m).size()) { i -= S->material_cells(m).size(); m++; } int c = S->material_cells(m)[i];
    switch (way) { case 0: v(m, c) = x; break; case 1: v(c, m, Jali::Data_layout::CELL_CENTRIC) = x; break; case 2: v.begin(m)[i] = x; break; case 3: v.get_raw_data(m)[i] = x; break; case 4: v.get_matdata(m)[i] = x; break; default: (*v.get_data())[m][i] = x; } b[pos] = val; return true; }
  static void resize(SV&, int, int, VB&) {}
};
template <class T> Jali::State* AccM<T>::S = 0;
template <class T, class D> void setS(Acc<T, D>*, StP) {}
template <class T> void setS(AccM<T>*, StP s) { AccM<T>::S = s.get(); }
struct H { int buf; std::string name; };
template <class A, class D> struct Machine {
  typedef typename A::SV SV; std::shared_ptr<Jali::Mesh> mesh; std::shared_ptr<D> dom; Entity_type type; bool mats; std::vector<VI> groups; std::function<std::shared_ptr<Jali::Mesh>()> remesh;
  static std::shared_ptr<Jali::Mesh> mesh_as(std::shared_ptr<Jali::Mesh> m, Jali::Mesh*) { return m; } static TileP mesh_as(std::shared_ptr<Jali::Mesh>, Jali::MeshTile*) { return nullptr; }
  std::function<SV*(StP, std::string)> standalone;         // filled with value 1
  std::function<SV*(StP, std::string)> added, dup;         // in the state, value 2; duplicate with value 3
  std::function<SV*(StP, SV&)> addcopy;                    // may be empty
  enum { V0, V1, H0, H1, P0, NS };
  StP s; SV* o[NS]; std::unique_ptr<SV> own[2]; std::shared_ptr<SV> p0; H h[NS]; std::vector<VB> buf; int val; SV* extra; H hx; int ex;
  void setup() {
    if (remesh) { mesh = remesh(); dom = mesh_as(mesh, (D*)0); } s = Jali::State::create(mesh); if (mats) for (size_t i = 0; i < groups.size(); i++) s->add_material(std::string(1, 'A' + i), groups[i]); setS((A*)0, s);
    buf.clear(); val = 9; extra = 0; o[V0] = added(s, "a"); o[V1] = added(s, "b"); own[0].reset(standalone(s, "h")); own[1].reset(new SV()); *own[1] = *o[V0]; o[H0] = own[0].get(); o[H1] = own[1].get(); o[P0] = o[V1]; p0.reset(); std::shared_ptr<SV> p; s->get("b", dom, CK, type, &p); p0 = p; o[P0] = p.get();
    int n; if (mats) { n = 0; for (int m = 0; m < s->num_materials(); m++) n += s->material_cells(m).size(); } else n = dom->num_entities(CK, type);
    buf.push_back(VB(n, 2)); buf.push_back(VB(n, 2)); buf.push_back(VB(n, 1)); h[V0] = {0, "a"}; h[V1] = {1, "b"}; h[H0] = {2, "h"}; h[H1] = {0, "a"}; h[P0] = {1, "b"}; }
  int nops() const { return NS * A::ways + NS * A::resizes + 2 * NS + 2 * NS + 4 + 2 + 4 + 2; }
  // performs the operation on both sides; false: not applicable
  bool step(int op, std::string& cx) {
    auto N = [](int i) { static char const* n[] = {"V0", "V1", "H0", "H1", "P0"}; return std::string(n[i]); };
    if (op < NS * A::ways) { int i = op / A::ways, w = op % A::ways; ++val; cx += "write " + N(i) + " way " + std::to_string(w) + "; "; return A::write(*o[i], w, val, buf[h[i].buf]); } op -= NS * A::ways;
    if (op < NS * A::resizes) { int i = op / A::resizes, w = op % A::resizes; ++val; cx += "resize " + N(i) + " way " + std::to_string(w) + "; "; A::resize(*o[i], w, val, buf[h[i].buf]); return true; } op -= NS * A::resizes;
    if (op < 2 * NS) { int d = op / NS, i = op % NS; cx += "H" + std::to_string(d) + "=new copy of " + N(i) + "; "; std::unique_ptr<SV> n(new SV(*o[i])); own[d].swap(n); o[H0 + d] = own[d].get(); buf.push_back(buf[h[i].buf]); h[H0 + d] = {(int)buf.size() - 1, h[i].name}; return true; } op -= 2 * NS;
    if (op < 2 * NS) { int d = op / NS, i = op % NS; cx += "H" + std::to_string(d) + "=" + N(i) + "; "; *o[H0 + d] = *o[i]; h[H0 + d] = h[i]; return true; } op -= 2 * NS;
    if (op < 4) { int d = op / 2, i = op % 2; cx += "get " + N(i) + " into H" + std::to_string(d) + "; "; vk::ok(s->get(i ? "b" : "a", dom, CK, type, o[H0 + d]), "vector not found", cx); h[H0 + d] = h[i]; return true; } op -= 4;
    if (op < 2) { cx += "get " + N(op) + " as P0; "; std::shared_ptr<SV> p; vk::ok(s->get(op ? "b" : "a", dom, CK, type, &p), "vector not found", cx); if (!p) return true; p0 = p; o[P0] = p.get(); h[P0] = h[op]; return true; } op -= 2;
    if (op < 4) { int i = op % 2; cx += "add duplicate of " + N(i) + "; "; SV* r = op < 2 ? dup(s, i ? "b" : "a") : added(s, i ? "b" : "a"); vk::ok(r == o[i], "adding a duplicate returns another vector", cx); return true; } op -= 4;
    if (!addcopy || extra) return false; cx += "add copy of H" + std::to_string(op) + " to the state; "; SV* r = addcopy(s, *o[H0 + op]); std::string nm = h[H0 + op].name;
    if (nm == "a" || nm == "b") { vk::ok(r == o[nm == "b"], "adding a duplicate returns another vector", cx); return true; } extra = r; buf.push_back(buf[h[H0 + op].buf]); hx = {(int)buf.size() - 1, nm}; return true; }
  void look(std::string const& cx) {
    auto one = [&](SV& v, H const& x, std::string const& who) { vk::eq(v.name(), x.name, "name of a vector", cx + who); vk::ok(v.entity_kind() == CK && v.entity_type() == type && v.domain() == dom, "kind, type or domain of a vector", cx + who); VB r = A::read(v, val, cx + who); if (vk::failed()) return; vk::eq(r, buf[x.buf], "contents of a vector", cx + who); };
    static char const* n[] = {"V0", "V1", "H0", "H1", "P0"}; for (int i = 0; i < NS; i++) { one(*o[i], h[i], n[i]); if (vk::failed()) return; } if (extra) one(*extra, hx, "added copy"); }
  // canonical abstract state: which handles share, their names and sizes
  std::vector<int> canon() { std::vector<int> c; std::map<int, int> id; for (int i = 0; i < NS; i++) { int k = id.insert({h[i].buf, (int)id.size()}).first->second; c.push_back(k); c.push_back(h[i].name[0]); c.push_back(buf[h[i].buf].size()); } c.push_back(extra ? hx.name[0] : 0); return c; }
  void dfs(int depth, std::vector<int>& hist) { int n = nops(); for (int op = 0; op < n && !vk::failed(); op++) { setup(); std::string cx; bool good = true; for (int p : hist) good = step(p, cx) && good; if (!step(op, cx)) continue; vk::transitions(); vk::set_current(cx); look(""); if (vk::failed()) return;
      if (seen.insert(canon()).second) vk::states(); if (depth > 1) { hist.push_back(op); dfs(depth - 1, hist); hist.pop_back(); } else vk::traces(); } }
  std::set<std::vector<int>> seen;
  void go(int depth, int first) { std::vector<int> hist; setup(); look("start "); if (vk::failed()) return; int n = nops(); if (first >= n) { vk::trivial(); return; } std::string cx; if (!step(first, cx)) { vk::trivial(); return; } vk::set_current(cx); look(""); hist.push_back(first); vk::beat(); if (!vk::failed() && depth > 1) dfs(depth - 1, hist);
    // data must outlive the state manager
    if (!vk::failed() && !mats) { setup(); cx = ""; step(first, cx); SV keep; keep = *o[V0]; VB want = buf[h[V0].buf]; own[0].reset(); own[1].reset(); p0.reset(); s.reset(); VB r = A::read(keep, val, "kept"); vk::eq(r, want, "contents of a vector whose state manager is gone", cx); } }
};
template <class T, class D> Machine<Acc<T, D>, D> uni(std::shared_ptr<Jali::Mesh> m, std::shared_ptr<D> d, Entity_type t) {
  typedef Jali::UniStateVector<T, D> SV; Machine<Acc<T, D>, D> M; M.mesh = m; M.dom = d; M.type = t; M.mats = false;
  M.standalone = [=](StP, std::string n) { std::vector<T> v(64, mk<T>(1)); return new SV(n, d, nullptr, CK, t, v.data()); };
  M.added = [=](StP s, std::string n) { std::vector<T> v(64, mk<T>(2)); return &s->add(n, d, CK, t, (T const*)v.data()); };
  M.dup = [=](StP s, std::string n) { return &s->template add<T, D, Jali::UniStateVector>(n, d, CK, t, mk<T>(3)); };
  return M; }
template <class T> Machine<Acc<T, Jali::Mesh>, Jali::Mesh> unim(std::shared_ptr<Jali::Mesh> m, Entity_type t) { auto M = uni<T, Jali::Mesh>(m, m, t); M.addcopy = [](StP s, Jali::UniStateVector<T, Jali::Mesh>& v) { return &s->add(v); }; return M; }
template <class T> Machine<AccM<T>, Jali::Mesh> multi(std::function<std::shared_ptr<Jali::Mesh>()> rm, std::vector<VI> groups) {
  typedef Jali::MultiStateVector<T, Jali::Mesh> SV; Machine<AccM<T>, Jali::Mesh> M; M.remesh = rm; M.groups = groups; Entity_type t = M.type = Entity_type::ALL; M.mats = true;
  M.standalone = [=](StP s, std::string n) { return new SV(n, s->mesh(), s, CK, t, mk<T>(1)); };
  M.added = [=](StP s, std::string n) { std::vector<T> v(64, mk<T>(2)); T const* p[64]; for (auto& q : p) q = v.data(); return &s->add(n, s->mesh(), CK, t, Jali::Data_layout::MATERIAL_CENTRIC, (T const* const*)p); };
  M.dup = [=](StP s, std::string n) { return &s->template add<T, Jali::Mesh, Jali::MultiStateVector>(n, s->mesh(), CK, t, mk<T>(3)); };
  return M; }
template <class M> void machine(std::string nm, std::function<M()> mk, int depth) { int n; { M m = mk(); n = m.nops(); } for (int f = 0; f < n; f++) vk::run(nm + " depth " + std::to_string(depth) + " first " + std::to_string(f), [=] { M m = mk(); m.go(depth, f); }); }
// -------- sizes and initial values
static Entity_type const TYPES[4] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST, Entity_type::ALL};
template <class T, class D> void initial(Jali::Mesh& m, std::shared_ptr<Jali::Mesh> mp, std::shared_ptr<D> d, int k, Entity_type t, int want, std::string const& cx) {
  typedef Jali::UniStateVector<T, D> SV; StP s = Jali::State::create(mp); std::vector<T> v; for (int i = 0; i < std::max(400, want + 1); i++) v.push_back(mk<T>(i + 1));
  auto chk = [&](SV& x, int mode, std::string const& how) { vk::cmp(); if ((int)x.size() != want) { vk::fail("size of a vector differs from the number of entities", cx + " " + how + " got " + std::to_string(x.size()) + " expected " + std::to_string(want)); return; } for (int i = 0; i < want && mode; i++) if (!(x[i] == (mode == 1 ? mk<T>(5) : v[i]))) { vk::fail("initial values", cx + " " + how + " at " + std::to_string(i)); return; } vk::ok(x.entity_kind() == KINDS[k] && x.entity_type() == t && x.domain() == d, "kind, type or domain of a vector", cx + " " + how); };
  chk(s->template add<T, D, Jali::UniStateVector>("u", d, KINDS[k], t), 0, "add"); chk(s->template add<T, D, Jali::UniStateVector>("v", d, KINDS[k], t, mk<T>(5)), 1, "add value"); chk(s->add("w", d, KINDS[k], t, (T const*)v.data()), 2, "add data");
  { SV x("x", d, s, KINDS[k], t); chk(x, 0, "vector"); } { SV x("x", d, nullptr, KINDS[k], t, mk<T>(5)); chk(x, 1, "vector of value"); } { SV x("x", d, nullptr, KINDS[k], t, (T const*)v.data()); chk(x, 2, "vector of data"); SV y(x); chk(y, 2, "copy"); SV z; z = y; chk(z, 2, "assigned"); v[0] = mk<T>(399); if (want) vk::ok(x[0] == mk<T>(1), "vector shares the caller's array", cx); v[0] = mk<T>(1); }
  (void)m; }
template <class D> void initials(std::shared_ptr<Jali::Mesh> m, std::shared_ptr<D> d, int k, Entity_type t, int want, std::string const& cx) { initial<int, D>(*m, m, d, k, t, want, cx); initial<double, D>(*m, m, d, k, t, want, cx); initial<A3, D>(*m, m, d, k, t, want, cx); initial<std::string, D>(*m, m, d, k, t, want, cx); }
template <class T> void multinit(std::shared_ptr<Jali::Mesh> m, std::vector<VI> const& g, std::string const& cx) {
  typedef Jali::MultiStateVector<T, Jali::Mesh> SV; StP s = Jali::State::create(m); int NM = g.size(); for (int i = 0; i < NM; i++) s->add_material(std::string(1, 'A' + i), g[i]); int nc = m->num_cells<Entity_type::ALL>();
  std::vector<std::vector<T>> cm(nc, std::vector<T>(NM)), mc(NM, std::vector<T>(nc)); for (int c = 0; c < nc; c++) for (int k = 0; k < NM; k++) cm[c][k] = mc[k][c] = mk<T>(10 * c + k + 1); std::vector<T const*> pc, pm; for (auto& r : cm) pc.push_back(r.data()); for (auto& r : mc) pm.push_back(r.data());
  auto chk = [&](SV& x, int mode, std::string const& how) { vk::eq((int)x.size(), NM, "number of materials of a vector", cx + how); for (int k = 0; k < NM; k++) { auto const& cs = s->material_cells(k); if (!vk::eq(x.size(k), cs.size(), "number of entries of a material", cx + how)) return; for (size_t i = 0; i < cs.size() && mode; i++) { T w = mode == 1 ? mk<T>(5) : cm[cs[i]][k]; vk::ok(x.get_matdata(k)[i] == w && x(k, cs[i]) == w && x(cs[i], k, Jali::Data_layout::CELL_CENTRIC) == w, "initial values of a multi-material vector", cx + how); } } };
  auto t = Entity_type::ALL; auto C = Jali::Data_layout::CELL_CENTRIC; auto M = Jali::Data_layout::MATERIAL_CENTRIC;
  chk(s->template add<T, Jali::Mesh, Jali::MultiStateVector>("u", m, CK, t), 0, "add"); chk(s->template add<T, Jali::Mesh, Jali::MultiStateVector>("v", m, CK, t, mk<T>(5)), 1, "add value"); chk(s->add("w", m, CK, t, C, (T const* const*)pc.data()), 2, "add cell-centred"); chk(s->add("x", m, CK, t, M, (T const* const*)pm.data()), 2, "add material-centred");
  { SV x("y", m, s, CK, t, C, (T const* const*)pc.data()); chk(x, 2, "cell-centred"); SV y(x); chk(y, 2, "copy"); SV z; z = x; chk(z, 2, "assigned"); z.assign(mk<T>(5)); chk(x, 1, "assigned through another handle"); chk(y, 2, "copy after assignment to the original"); z.assign(M, (T const* const*)pm.data()); chk(x, 2, "assigned table"); z.assign(mk<T>(5)); z.assign(C, (T const* const*)pc.data()); chk(x, 2, "assigned cell-centred table"); }
}
VK_CHECK("C20", "model_checking", "(1) every history up to the stated depth over {write through one of five handles in one of five ways (1, 2, 3, 6 or 20 materials for multi-material vectors), resize, clear, copy-construct or assign a handle from any other, get by name into a handle or as shared pointer, add a duplicate, add a copy to the state} on real vectors, all five handles compared with a reference heap of buffers after every history; one case = one machine (element type, domain, uni or multi) and first operation; (2) sizes and initial values for every kind x type x domain x way of creation x element type on a family of meshes, also of 34200 to 70000 cells; histories whose first operation does not apply are trivial") {
  auto mesh = [](int tiles) { Opt o; o.ghost = {0, 0, 0, 1}; Req q; q.f = tiles; q.tiles = tiles; q.tghost = 1; return std::static_pointer_cast<Jali::Mesh>(make(elaborate(quads(2, 2), o), q)); };
  int D = vk::thorough ? 4 : 3; typedef Machine<Acc<double, Jali::Mesh>, Jali::Mesh> MD;
  machine<MD>("double on mesh", [=] { return unim<double>(mesh(0), Entity_type::ALL); }, D);
  machine<Machine<Acc<A3, Jali::Mesh>, Jali::Mesh>>("arrays on mesh owned", [=] { return unim<A3>(mesh(0), Entity_type::PARALLEL_OWNED); }, vk::thorough ? 4 : 3);
  machine<Machine<Acc<std::string, Jali::Mesh>, Jali::Mesh>>("strings on mesh ghosts", [=] { return unim<std::string>(mesh(0), Entity_type::PARALLEL_GHOST); }, vk::thorough ? 3 : 2);
  machine<Machine<Acc<int, Jali::MeshTile>, Jali::MeshTile>>("int on tile", [=] { auto m = mesh(2); auto t = m->tiles()[1]; auto M = uni<int, Jali::MeshTile>(m, t, Entity_type::ALL); return M; }, D);
  machine<Machine<AccM<double>, Jali::Mesh>>("multi double", [=] { return multi<double>([=] { return mesh(0); }, {{0, 1, 2}, {1, 3}}); }, D);
  machine<Machine<AccM<double>, Jali::Mesh>>("multi double 1 material", [=] { return multi<double>([=] { return mesh(0); }, {{0, 2, 3}}); }, vk::thorough ? 3 : 2);
  machine<Machine<AccM<double>, Jali::Mesh>>("multi double 3 materials", [=] { return multi<double>([=] { return mesh(0); }, {{0, 1, 2}, {1, 3}, {0, 3, 2}}); }, vk::thorough ? 3 : 2);
  machine<Machine<AccM<int>, Jali::Mesh>>("multi int 6 materials", [=] { return multi<int>([=] { return mesh(0); }, {{2}, {1, 3}, {}, {0, 3, 2, 1}, {3}, {0, 2}}); }, vk::thorough ? 3 : 2);
  machine<Machine<AccM<double>, Jali::Mesh>>("multi double 20 materials", [=] { std::vector<VI> g; for (int i = 0; i < 20; i++) { VI v; for (int c = 0; c < 4; c++) if ((i * 5 + 3) >> c & 1) v.push_back(c); g.push_back(v); } return multi<double>([=] { return mesh(0); }, g); }, 2);
  machine<Machine<AccM<int>, Jali::Mesh>>("multi int", [=] { return multi<int>([=] { return mesh(0); }, {{0, 1, 2}, {1, 3}}); }, vk::thorough ? 4 : 3);
  for (auto& tm : tilemeshes(vk::thorough ? 6 : 4, vk::thorough)) for (int tl = 0; tl < 3; tl++) for (int r = 0; r < 2; r++) vk::run("initial " + tm.name + " tiles " + std::to_string(tl) + (r ? " all" : ""), [=] {
    Req q; if (r && tm.edges) q = Req::all(); q.f = true; q.tiles = tl; q.tghost = tl ? 1 : 0; auto m = tm.make(q);
    for (int k = 0; k < 7; k++) { if (!asked(q, k)) continue; for (Entity_type t : TYPES) { if (t == Entity_type::BOUNDARY_GHOST && k) continue; int want = 0; if (k == 0 && t == Entity_type::BOUNDARY_GHOST) want = m->cells<Entity_type::BOUNDARY_GHOST>().size(); else want = list(*m, k, t).size(); initials<Jali::Mesh>(m, m, k, t, want, KN[k] + std::string(" type ") + std::to_string((int)t));
        if (t != Entity_type::BOUNDARY_GHOST) for (auto& tp : m->tiles()) initials<Jali::MeshTile>(m, tp, k, t, list(*tp, k, t).size(), std::string("tile ") + KN[k] + " type " + std::to_string((int)t)); } }
    int nc = m->num_cells<Entity_type::ALL>() - (int)m->cells<Entity_type::BOUNDARY_GHOST>().size(); if (nc >= 2 && !tl) for (int a = 0; a < (1 << std::min(nc, 4)); a++) for (int b = 1; b < (1 << std::min(nc, 4)); b += 2) { auto m2 = tm.make(q); VI va, vb; for (int i = 0; i < nc; i++) { if (a >> i & 1) va.push_back(i); if (b >> i & 1) vb.insert(vb.begin(), i); } std::string cx = vk::str(va) + vk::str(vb); multinit<double>(m2, {va, vb}, cx); auto m3 = tm.make(q); multinit<int>(m3, {va, vb}, cx); if (b == 3 || a == 5) { auto m4 = tm.make(q); multinit<double>(m4, {va, vb, VI{nc - 1}, va, VI(), vb, VI{0}}, cx + " 7 materials"); auto m5 = tm.make(q); multinit<int>(m5, {vb}, cx + " 1 material"); auto m6 = tm.make(q); multinit<int>(m6, {va, VI{0}, vb}, cx + " 3 materials"); } } });
  for (auto& tm : gianttilemeshes()) vk::run("initial " + tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many entities", [=] { Req q; if (tm.edges) q = Req::all(); q.tiles = 3; q.tghost = 1; auto m = tm.make(q);
    for (int k = 0; k < 7; k++) { if (!asked(q, k) || k == 4 || k == 5) continue; for (Entity_type t : TYPES) { if (t == Entity_type::BOUNDARY_GHOST && k) continue; int want = k == 0 && t == Entity_type::BOUNDARY_GHOST ? m->cells<Entity_type::BOUNDARY_GHOST>().size() : list(*m, k, t).size(); std::string cx = KN[k] + std::string(" type ") + std::to_string((int)t); initial<double, Jali::Mesh>(*m, m, m, k, t, want, cx); vk::beat(); if (k < 2) initial<int, Jali::Mesh>(*m, m, m, k, t, want, cx); if (t != Entity_type::BOUNDARY_GHOST) { auto tp = m->tiles()[2]; initial<double, Jali::MeshTile>(*m, m, tp, k, t, list(*tp, k, t).size(), "tile " + cx); } vk::beat(); if (vk::failed()) return; } }
    int nc = m->num_cells<Entity_type::ALL>() - (int)m->cells<Entity_type::BOUNDARY_GHOST>().size(); VI va, vb; for (int i = 0; i < nc; i += 31) va.push_back(i); for (int i = nc; i-- > nc - 700;) vb.push_back(i); multinit<double>(m, {va, vb}, "materials of a large mesh"); });
}
