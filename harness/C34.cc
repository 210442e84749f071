// C34: nothing asked before a change, or asked of an object that is gone, shows
// in an answer.  Same question; change; same question again -- and same
// question to another object that has come to lie at the same address.
#include "alphabet.hh"
#include "JaliState.h"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include <cstdlib>
#include <new>
// Storage of objects: a free place of the same size is used again at once, the
// lowest first, so that objects made in the same order lie in the same places;
// in worlds that serve as the model no place is ever used twice.
#if !defined(__SANITIZE_ADDRESS__)
namespace { size_t const LO = 112, HI = 8192; struct Free { Free* next; }; Free* g_free[HI / 16 + 1]; bool g_never = false; struct Head { size_t n; size_t pad; }; }
static bool const g_pool = true;
void* operator new(size_t n) { if (!n) n = 1; size_t k = (n + 15) / 16; if (n >= LO && n <= HI && !g_never && g_free[k]) { Free* f = g_free[k]; g_free[k] = f->next; return f; }
  Head* h = (Head*)malloc(sizeof(Head) + k * 16); if (!h) throw std::bad_alloc(); h->n = n; h->pad = g_never; return h + 1; }
void operator delete(void* p) noexcept { if (!p) return; Head* h = (Head*)p - 1; size_t n = h->n; if (n < LO || n > HI) { free(h); return; } if (h->pad) { free(h); return; }
  Free** at = &g_free[(n + 15) / 16]; while (*at && (char*)*at < (char*)p) at = &(*at)->next; Free* f = (Free*)p; f->next = *at; *at = f; }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#else
static bool const g_pool = false; static bool g_never = false;
#endif
struct Never { bool o; Never() : o(g_never) { g_never = true; } ~Never() { g_never = o; } };

// ---- a subject: worlds, questions, changes
template <class X> struct Subject { std::string name;
  typedef std::function<void(X&, Ans&)> F; struct Qu { std::string method, name; F f; };
  std::function<std::shared_ptr<X>(int)> mk;    // a new world, made ready for the change of this number (-1: none)
  std::vector<Qu> qs; std::vector<std::string> cn; std::function<void(X&, int)> change; };
template <class X> Ans ask(typename Subject<X>::Qu const& q, X& x) { Ans a; q.f(x, a); vk::cmp(); return a; }
template <class X> bool judge(typename Subject<X>::Qu const& q, Ans const& a, Ans const& want, std::string const& hist) { vk::transitions(); if (same(a, want)) return true; vk::fail("answer from before a change or of another object: " + q.method, hist + " then " + q.name + " got " + strans(a) + " expected " + strans(want)); return false; }
// the same questions in batches that hold every method at most once
template <class X> std::vector<std::vector<int>> batches(std::vector<typename Subject<X>::Qu> const& qs, std::function<bool(int)> use, int lim) { std::map<std::string, int> n; std::vector<std::vector<int>> b; for (size_t i = 0; i < qs.size(); i++) if (use(i)) { int k = n[qs[i].method]++; if (lim >= 0 && k >= lim) continue; if (k >= (int)b.size()) b.resize(k + 1); b[k].push_back(i); } return b; }
template <class X> Ans alone(Subject<X> const& s, std::vector<int> const& ch, int q) { Never n; auto x = s.mk(ch.empty() ? -1 : ch[0]); for (int c : ch) s.change(*x, c); vk::set_current("model"); return ask<X>(s.qs[q], *x); }
// question, change, question for every change; in batches, and alone for the first `single` of each method
template <class X> void changes(Subject<X> const& s, int c, int lim, int single) {
  std::map<int, Ans> want;
  for (auto& b : batches<X>(s.qs, [](int) { return true; }, lim)) { auto x = s.mk(c); vk::traces(); vk::states(); for (int i : b) ask<X>(s.qs[i], *x); s.change(*x, c);
    std::map<int, Ans> w, g; for (size_t j = b.size(); j-- > 0;) g[b[j]] = ask<X>(s.qs[b[j]], *x); { Never n; auto y = s.mk(c); s.change(*y, c); for (size_t j = b.size(); j-- > 0;) w[b[j]] = ask<X>(s.qs[b[j]], *y); }
    for (size_t j = b.size(); j-- > 0;) if (!judge<X>(s.qs[b[j]], g[b[j]], w[b[j]], "asked; " + s.cn[c])) return; vk::beat(); }
  for (auto& b : batches<X>(s.qs, [](int) { return true; }, single)) for (int i : b) { auto x = s.mk(c); vk::traces(); vk::states(); ask<X>(s.qs[i], *x); s.change(*x, c); Ans g = ask<X>(s.qs[i], *x); if (!judge<X>(s.qs[i], g, alone(s, {c}, i), s.qs[i].name + "; " + s.cn[c])) return; vk::beat(); }
}
// question, change, question, change, question
template <class X> void twice(Subject<X> const& s, int c, int d, int single) {
  for (auto& b : batches<X>(s.qs, [](int) { return true; }, single)) for (int i : b) { auto x = s.mk(c); vk::traces(); vk::states(); ask<X>(s.qs[i], *x); s.change(*x, c); ask<X>(s.qs[i], *x); s.change(*x, d); Ans g = ask<X>(s.qs[i], *x); if (!judge<X>(s.qs[i], g, alone(s, {c, d}, i), s.qs[i].name + "; " + s.cn[c] + "; again; " + s.cn[d])) return; vk::beat(); } }
// questions to one world, which goes away, and to another that takes its place
template <class X> void replaced(Subject<X> const& a, Subject<X> const& b, int ca, int cb, int lim, int single, std::function<void const*(X&)> where) {
  std::map<std::string, int> in; for (size_t i = 0; i < a.qs.size(); i++) in[a.qs[i].name] = i; auto at = [&](int i) { auto it = in.find(b.qs[i].name); return it == in.end() ? -1 : it->second; };
  auto go = [&](std::vector<int> const& l) { void const* p; { auto x = a.mk(ca); if (ca >= 0) a.change(*x, ca); for (int i : l) ask<X>(a.qs[at(i)], *x); p = where(*x); } auto y = b.mk(cb); if (cb >= 0) b.change(*y, cb); vk::traces(); vk::states(); if (where(*y) == p) vk::count("same_address"); else vk::count("other_address");
    std::map<int, Ans> w, g; for (size_t j = l.size(); j-- > 0;) g[l[j]] = ask<X>(b.qs[l[j]], *y); { Never n; auto z = b.mk(cb); if (cb >= 0) b.change(*z, cb); for (size_t j = l.size(); j-- > 0;) w[l[j]] = ask<X>(b.qs[l[j]], *z); }
    for (size_t j = l.size(); j-- > 0;) if (!judge<X>(b.qs[l[j]], g[l[j]], w[l[j]], "asked of " + a.name + ", which is gone; " + b.name)) return false; vk::beat(); return true; };
  for (auto& l : batches<X>(b.qs, [&](int i) { return at(i) >= 0; }, lim)) if (!go(l)) return;
  for (auto& l : batches<X>(b.qs, [&](int i) { return at(i) >= 0; }, single)) for (int i : l) if (!go({i})) return;
}

// ---- meshes, with their tiles, sets and model
enum { MOVE, MOVE1, UPDATE, EDIT, NEWSET, TILE, SETS, REGION, NMESH };
static void change(W& w, Req const& q, int c) { Jali::Mesh& m = *w.m;
  switch (c) {
    case MOVE: { for (int n = 0; n < (int)m.num_nodes<Entity_type::ALL>(); n++) { Point p; m.node_get_coordinates(n, &p); for (int d = 0; d < p.dim(); d++) p[d] = p[d] * (1.25 + 0.25 * d) + (w.sd == 1 ? 0 : 0.5); m.node_set_coordinates(n, p); } m.update_geometric_quantities(); break; }
    case MOVE1: { int n = m.num_nodes<Entity_type::ALL>() - 1; Point p; m.node_get_coordinates(n, &p); for (int d = 0; d < p.dim(); d++) p[d] += 0.03125 * (d + 1); m.node_set_coordinates(n, p); break; } case UPDATE: m.update_geometric_quantities(); break;
    case EDIT: for (auto s : m.sets()) { VI all = s->entities<Entity_type::ALL>(); int N = m.num_entities(s->kind(), Entity_type::ALL), in = -1; for (int e = 0; e < N && in < 0; e++) { auto t = m.entity_get_type(s->kind(), e); if ((t == Entity_type::PARALLEL_OWNED || t == Entity_type::PARALLEL_GHOST) && std::find(all.begin(), all.end(), e) == all.end()) in = e; } if (all.size()) s->rem_entity(all[0]); if (in >= 0 && (all.empty() || N % 2)) s->add_entity(in); } break;
    case NEWSET: { Jali::make_meshset("lab", m, Entity_kind::NODE, VI{0}, VI(), false); for (auto s : m.sets()) if (s->name() == "box" && s->kind() == Entity_kind::CELL) s->set_name("was box"); break; }
    case TILE: maketile(w, q, 1); break; case SETS: m.init_sets_from_geometric_model(); break;
    case REGION: { w.gm->Add_Region(w.regs.back().get()); m.init_sets_from_geometric_model(); break; } } }
static char const* const CN[NMESH] = {"move the nodes and update", "move the last node", "update", "edit every set", "make a set, rename another", "make the second tile", "make the sets from the model", "add a region to the model and make the sets"};
struct Late_ { Late o; Late_(Late l) : o(late) { late = l; } ~Late_() { late = o; } };
static Subject<WH> subject(World const& w) { Subject<WH> s; s.name = w.name; for (auto n : CN) s.cn.push_back(n); auto mk = w.mk; Req q = w.q;
  s.mk = [mk](int c) { Late_ l(c == TILE ? LATE_TILE : c == SETS ? LATE_SETS : c == REGION ? LATE_REGION : NOTHING); auto h = std::make_shared<WH>(); mk(h->w); return h; };
  s.change = [q](WH& h, int c) { change(h.w, q, c); };
  { WH h; w.mk(h.w); for (auto& x : alphabet(h.w, w.q, w.lim)) { auto f = x.f; s.qs.push_back({x.method, x.name, [f](WH& h, Ans& a) { f(h.w, 1, a); }}); } }
  return s; }

// ---- states
typedef Jali::UniStateVector<double, Jali::Mesh> UD; typedef Jali::MultiStateVector<double, Jali::Mesh> MD;
struct SW { MeshP m; std::vector<TileP> t; std::shared_ptr<Jali::State> s; ~SW() { s.reset(); t.clear(); m.reset(); } };
static Entity_kind const CE = Entity_kind::CELL, NO = Entity_kind::NODE; static Entity_type const AL = Entity_type::ALL, OW = Entity_type::PARALLEL_OWNED;
static void fillmulti(Jali::State& s, MD& v, double x) { for (int k = 0; k < s.num_materials(); k++) for (int c : s.material_cells(k)) v(k, c) = x + 10 * k + c; }
static void found(Ans& a, Jali::State& s, Jali::State::iterator it) { if (it == s.end()) { a.push_back(-1); return; } a.push_back(it - s.begin()); put(a, (*it)->name()); a.push_back((int)(*it)->entity_kind()); a.push_back((int)(*it)->entity_type()); }
static void foundc(Ans& a, Jali::State const& s, Jali::State::const_iterator it) { if (it == s.cend()) { a.push_back(-1); return; } a.push_back(it - s.cbegin()); put(a, (*it)->name()); }
enum { ADDM, REMM, REMN, CELLS, WRITE, VECN, VECM, ASSIGN, RENAMED, NSTATE };
static char const* const SN[NSTATE] = {"add a material", "remove the first material", "remove the second material by name", "add a cell to the first material", "write all vectors", "add vectors by value", "add a multi-material vector", "assign a multi-material vector", "remove and add a material"};
static Subject<SW> states(std::string const& name, int variant, std::function<MeshP(Req)> make) {
  Subject<SW> s; s.name = name; for (auto n : SN) s.cn.push_back(n); int V = variant;
  s.mk = [make, V](int) { auto w = std::make_shared<SW>(); Req q; q.tiles = 2; q.tghost = 1; w->m = make(q); for (auto t : w->m->tiles()) w->t.push_back(t); w->s = Jali::State::create(w->m); auto& st = *w->s; double x = 100 * V;
    st.add_material(V ? "air" : "steel", V ? VI{1} : VI{0, 1}); st.add_material(V ? "steel" : "air", V ? VI{0, 1} : VI{1});
    auto& u = st.add<double, Jali::Mesh, Jali::UniStateVector>("u", w->m, CE, AL, 1. + x); for (size_t i = 0; i < u.size(); i++) u[i] += i; auto& n = st.add<int, Jali::Mesh, Jali::UniStateVector>(V ? "n2" : "n", w->m, NO, AL, 5 + V); n[0] = 7 + V;
    st.add<double, Jali::MeshTile, Jali::UniStateVector>("t", w->t[V], CE, AL, 2.5 + x); auto& m = st.add<double, Jali::Mesh, Jali::MultiStateVector>("mm", w->m, CE, AL, 3. + x); fillmulti(st, m, x); if (V) st.add<double, Jali::Mesh, Jali::UniStateVector>("u", w->m, NO, OW, 4.); return w; };
  s.change = [](SW& w, int c) { auto& st = *w.s; switch (c) {
    case ADDM: st.add_material("gas", VI{0, 2}); break; case REMM: if (st.num_materials()) st.rem_material(0); break; case REMN: if (st.num_materials() > 1) st.rem_material_by_name(st.material_name(1)); break;
    case CELLS: if (st.num_materials()) for (int x : {2, 0}) { auto v = st.material_cells(0); if (std::find(v.begin(), v.end(), x) == v.end()) { st.add_cells_to_material(0, VI{x}); break; } } { MD v; if (st.get("mm", w.m, CE, AL, &v)) fillmulti(st, v, 77); } break;
    case WRITE: { UD v; if (st.get("u", w.m, CE, AL, &v)) for (size_t i = 0; i < v.size(); i++) v[i] = 500 + i; Jali::UniStateVector<double, Jali::MeshTile> t; for (auto& x : w.t) if (st.get("t", x, CE, AL, &t)) for (size_t i = 0; i < t.size(); i++) t[i] = 600 + i; MD m; if (st.get("mm", w.m, CE, AL, &m)) fillmulti(st, m, 700); break; }
    case VECN: st.add<double, Jali::Mesh, Jali::UniStateVector>("new", w.m, NO, AL, 8.); st.add<double, Jali::MeshTile, Jali::UniStateVector>("new", w.t[0], CE, AL, 9.); st.add<int, Jali::Mesh, Jali::UniStateVector>("n", w.m, CE, AL, 3); break;
    case VECM: st.add<double, Jali::Mesh, Jali::MultiStateVector>("nm", w.m, CE, AL, 8.5); break;
    case ASSIGN: { MD m; if (st.get("mm", w.m, CE, AL, &m)) m.assign(55.); break; }
    case RENAMED: { if (!st.num_materials()) break; std::string n = st.material_name(0); st.rem_material(0); st.add_material("rock", VI{2}); break; } } };
  auto add = [&](std::string const& meth, std::string const& arg, std::function<void(SW&, Ans&)> f) { s.qs.push_back({meth, meth + "(" + arg + ")", f}); };
  auto i2 = [](int i) { return std::to_string(i); };
  add("num_materials", "", [](SW& w, Ans& a) { a.push_back(w.s->num_materials()); }); add("size", "", [](SW& w, Ans& a) { a.push_back(w.s->size()); a.push_back(w.s->end() - w.s->begin()); a.push_back(w.s->cend() - w.s->cbegin()); a.push_back(w.s->names_end() - w.s->names_begin()); });
  for (int m = 0; m < 4; m++) { add("material_name", i2(m), [m](SW& w, Ans& a) { put(a, w.s->material_name(m)); }); add("num_material_cells", i2(m), [m](SW& w, Ans& a) { a.push_back(w.s->num_material_cells(m)); }); add("material_cells", i2(m), [m](SW& w, Ans& a) { put(a, w.s->material_cells(m)); });
    add("material_set", i2(m), [m](SW& w, Ans& a) { if (m >= w.s->num_materials()) return; auto p = w.s->material_set(m); a.push_back(!!p); if (p) { put(a, p->name()); put(a, p->entities<Entity_type::ALL>()); } });
    for (int c = 0; c < 3; c++) add("cell_index_in_material", i2(c) + "," + i2(m), [m, c](SW& w, Ans& a) { if (m < w.s->num_materials()) a.push_back(w.s->cell_index_in_material(c, m)); }); }
  for (std::string n : {"steel", "air", "gas", "rock", ""}) { add("material_index_by_name", n, [n](SW& w, Ans& a) { a.push_back(w.s->material_index_by_name(n)); }); add("material_set_by_name", n, [n](SW& w, Ans& a) { auto p = w.s->material_set_by_name(n); a.push_back(!!p); if (p) { put(a, p->name()); put(a, p->entities<Entity_type::ALL>()); } });
    add("find_meshset", n, [n](SW& w, Ans& a) { auto p = w.m->find_meshset(n, CE); a.push_back(!!p); if (p) put(a, p->entities<Entity_type::ALL>()); }); }
  for (int c = 0; c < 3; c++) { add("num_cell_materials", i2(c), [c](SW& w, Ans& a) { a.push_back(w.s->num_cell_materials(c)); }); add("cell_materials", i2(c), [c](SW& w, Ans& a) { put(a, vk::sorted(w.s->cell_materials(c))); }); }
  for (std::string n : {"u", "n", "n2", "t", "mm", "new", "nm"}) { for (int k = 0; k < 3; k++) for (int ty = 0; ty < 2; ty++) { Entity_kind K = k == 0 ? CE : k == 1 ? NO : Entity_kind::ANY_KIND; Entity_type T = ty ? OW : AL; std::string ar = n + "," + i2(k) + "," + i2(ty);
      add("find by name", ar, [=](SW& w, Ans& a) { found(a, *w.s, w.s->find(n, K, T)); }); add("const find by name", ar, [=](SW& w, Ans& a) { Jali::State const& c = *w.s; foundc(a, c, c.find(n, K, T)); });
      add("find on the mesh", ar, [=](SW& w, Ans& a) { found(a, *w.s, w.s->find(n, w.m, K, T)); }); add("const find on the mesh", ar, [=](SW& w, Ans& a) { Jali::State const& c = *w.s; foundc(a, c, c.find(n, w.m, K, T)); });
      add("typed find on the mesh", ar, [=](SW& w, Ans& a) { found(a, *w.s, w.s->find<double, Jali::Mesh, Jali::UniStateVector>(n, w.m, K, T)); }); add("typed const find on the mesh", ar, [=](SW& w, Ans& a) { Jali::State const& c = *w.s; foundc(a, c, c.find<double, Jali::Mesh, Jali::UniStateVector>(n, w.m, K, T)); });
      add("typed find of multi-material", ar, [=](SW& w, Ans& a) { found(a, *w.s, w.s->find<double, Jali::Mesh, Jali::MultiStateVector>(n, w.m, K, T)); });
      add("typed find by vector type", ar, [=](SW& w, Ans& a) { auto const U = Jali::StateVector_type::UNIVAL; auto const X = Jali::StateVector_type::MULTIVAL; found(a, *w.s, w.s->find<double, Jali::Mesh, U>(n, w.m, K, T)); found(a, *w.s, w.s->find<double, Jali::Mesh, X>(n, w.m, K, T)); found(a, *w.s, w.s->find<Jali::Mesh, U>(n, w.m, K, T)); });
      add("get", ar, [=](SW& w, Ans& a) { UD v; bool b = w.s->get(n, w.m, K, T, &v); a.push_back(b); if (b) { put(a, v.name()); a.push_back(v.size()); for (auto x : v) a.push_back(x); } });
      add("get pointer", ar, [=](SW& w, Ans& a) { std::shared_ptr<UD> v; bool b = w.s->get(n, w.m, K, T, &v); a.push_back(b); if (b) { put(a, v->name()); a.push_back(v->size()); for (auto x : *v) a.push_back(x); } });
      for (int d = 0; d < 2; d++) { add("find on a tile", ar + "," + i2(d), [=](SW& w, Ans& a) { found(a, *w.s, w.s->find(n, w.t[d], K, T)); }); add("get on a tile", ar + "," + i2(d), [=](SW& w, Ans& a) { Jali::UniStateVector<double, Jali::MeshTile> v; bool b = w.s->get(n, w.t[d], K, T, &v); a.push_back(b); if (b) { put(a, v.name()); a.push_back(v.size()); for (auto x : v) a.push_back(x); } }); } }
    add("get by name", n, [=](SW& w, Ans& a) { UD v; bool b = w.s->get(n, &v); a.push_back(b); if (b) { put(a, v.name()); for (auto x : v) a.push_back(x); } });
    add("get multi-material", n, [=](SW& w, Ans& a) { MD v; bool b = w.s->get(n, w.m, CE, AL, &v); a.push_back(b); if (!b) return; a.push_back(v.size()); for (size_t k = 0; k < v.size(); k++) put(a, VI{(int)v.size(k)}); });
    for (int m = 0; m < 3; m++) { add("material data", n + "," + i2(m), [=](SW& w, Ans& a) { MD v; if (!w.s->get(n, w.m, CE, AL, &v) || m >= (int)v.size()) return; auto const& d = v.get_matdata(m); a.push_back(d.size()); for (double x : d) a.push_back(x); });
      for (int c = 0; c < 3; c++) { add("material value", n + "," + i2(m) + "," + i2(c), [=](SW& w, Ans& a) { MD v; if (!w.s->get(n, w.m, CE, AL, &v) || m >= (int)v.size()) return; MD const& k = v; a.push_back(k(m, c)); }); add("cell value", n + "," + i2(m) + "," + i2(c), [=](SW& w, Ans& a) { MD v; if (!w.s->get(n, w.m, CE, AL, &v) || m >= (int)v.size()) return; MD const& k = v; a.push_back(k(c, m, Jali::Data_layout::CELL_CENTRIC)); }); } } }
  for (int i = 0; i < 8; i++) { add("vector by number", i2(i), [i](SW& w, Ans& a) { if (i >= w.s->size()) return; auto p = (*w.s)[i]; put(a, p->name()); a.push_back((int)p->entity_kind()); a.push_back((int)p->entity_type()); a.push_back((int)p->type()); a.push_back(p->data_type() == typeid(double)); }); add("name by number", i2(i), [i](SW& w, Ans& a) { if (i < w.s->names_end() - w.s->names_begin()) put(a, *(w.s->names_begin() + i)); }); }
  for (Entity_kind k : {CE, NO, Entity_kind::FACE}) { add("vectors of a kind", i2((int)k), [k](SW& w, Ans& a) { auto b = w.s->entity_begin(k), e = w.s->entity_end(k); a.push_back(e - b); for (; b != e; ++b) put(a, (*b)->name()); }); add("names of a kind", i2((int)k), [k](SW& w, Ans& a) { auto b = w.s->names_entity_begin(k), e = w.s->names_entity_end(k); a.push_back(e - b); for (; b != e; ++b) put(a, *b); }); }
  return s; }

// ---- geometric models and domains
using namespace JaliGeometry;
struct GW { std::unique_ptr<GeometricModel> g; };
static std::vector<std::shared_ptr<Region>> gregs() { std::vector<std::shared_ptr<Region>> r; int i = 1; for (std::string n : {"box", "plane", "third", "fourth"}) { r.push_back(std::make_shared<BoxRegion>(n, i * 3, Point(0., 0., 0.), Point(1. * i, 1., 1.))); i++; } return r; }
static Subject<GW> models(std::shared_ptr<std::vector<std::shared_ptr<Region>>> R, VI start) { Subject<GW> s; s.name = "model of regions " + vk::str(start); for (int i = 0; i < 4; i++) s.cn.push_back("add region " + std::to_string(i));
  s.mk = [R, start](int) { auto w = std::make_shared<GW>(); w->g.reset(new GeometricModel(3)); for (int i : start) w->g->Add_Region((*R)[i].get()); return w; }; s.change = [R](GW& w, int c) { w.g->Add_Region((*R)[c].get()); };
  auto add = [&](std::string const& m, std::string const& ar, std::function<void(GW&, Ans&)> f) { s.qs.push_back({m, m + "(" + ar + ")", f}); }; auto which = [R](RegionPtr p) { for (size_t i = 0; i < R->size(); i++) if ((*R)[i].get() == p) return (double)i; return p ? -2. : -1.; };
  add("Num_Regions", "", [](GW& w, Ans& a) { a.push_back(w.g->Num_Regions()); }); add("dimension", "", [](GW& w, Ans& a) { a.push_back(w.g->dimension()); });
  for (int i = 0; i < 5; i++) add("Region_i", std::to_string(i), [=](GW& w, Ans& a) { if (i < w.g->Num_Regions()) a.push_back(which(w.g->Region_i(i))); }); for (int i = 0; i < 16; i++) add("FindRegion by number", std::to_string(i), [=](GW& w, Ans& a) { a.push_back(which(w.g->FindRegion(i))); });
  for (std::string n : {"box", "plane", "third", "fourth", "none"}) add("FindRegion by name", n, [=](GW& w, Ans& a) { a.push_back(which(w.g->FindRegion(n))); }); return s; }

// ---- regions
struct RW { std::unique_ptr<Region> r; };
static Subject<RW> region(int kind, int v, int sd) { Subject<RW> s; char const* kn[] = {"box", "plane", "point", "polygon", "logical"}; s.name = std::string(kn[kind]) + " " + std::to_string(v) + " in " + std::to_string(sd) + "D";
  s.mk = [=](int) { auto w = std::make_shared<RW>(); Point a(sd), b(sd), n(sd); for (int i = 0; i < sd; i++) { a[i] = v ? 0.5 : -0.5; b[i] = v ? 2.5 : 1.5; n[i] = (i == (v ? 1 : 0)); } std::string nm = v ? "second" : "first"; int id = 3 + v;
    switch (kind) { case 0: w->r.reset(new BoxRegion(nm, id, a, b)); break; case 1: w->r.reset(new PlaneRegion(nm, id, a, n)); break; case 2: w->r.reset(new PointRegion(nm, id, a)); break;
      case 3: { std::vector<Point> p; double z = v ? 0.5 : 0; if (sd == 2) p = {Point(0., z), Point(2., z)}; else p = {Point(0., 0., z), Point(2., 0., z), Point(2., 2., z), Point(0., 2., z)}; w->r.reset(new PolygonRegion(nm, id, p.size(), p)); break; } default: w->r.reset(new LogicalRegion(nm, id, v ? Bool_type::UNION : Bool_type::INTERSECT, {v ? "a" : "b", "c"})); } return w; };
  s.change = [](RW&, int) {}; auto add = [&](std::string const& m, std::string const& ar, std::function<void(RW&, Ans&)> f) { s.qs.push_back({m, m + "(" + ar + ")", f}); };
  add("attributes", "", [](RW& w, Ans& a) { put(a, w.r->name()); a.push_back(w.r->id()); a.push_back((int)w.r->type()); a.push_back(w.r->dimension()); }); add("name", "", [](RW& w, Ans& a) { put(a, w.r->name()); }); add("id", "", [](RW& w, Ans& a) { a.push_back(w.r->id()); });
  if (kind < 4) for (double x : {-0.5, 0., 0.5, 1., 2.}) for (double y : {-0.5, 0., 0.5, 1., 2.}) for (double z : {0., 0.5}) { if (sd == 2 && z) continue; Point p = sd == 3 ? Point(x, y, z) : Point(x, y); add("inside", vk::str(x) + "," + vk::str(y) + "," + vk::str(z), [p](RW& w, Ans& a) { a.push_back(w.r->inside(p)); }); }
  if (kind == 4) add("components", "", [](RW& w, Ans& a) { auto l = dynamic_cast<LogicalRegion*>(w.r.get()); for (auto& n : l->component_regions()) put(a, n); a.push_back((int)l->operation()); });
  return s; }

VK_CHECK("C34", "model_checking", "for every question of the alphabet (over 150 kinds of question to meshes, tiles, sets and geometric models with every entity as argument; over 30 to states; regions): ask, change, ask again for every change (nodes moved with and without updating, every set edited, sets made and renamed, a tile, the sets or a region made late; materials added, removed, extended, vectors added, written, assigned), in batches with every method once and alone for the first of each method, and two changes with the question before, between and after; ask one object, destroy it, and ask another that was built in its place (storage is handed out so that it lies at the same address, counted as same_address); the model is a world in storage never used before that went through the same changes and was asked nothing; a case is a subject and a change, or a pair of subjects") {
  Exceptions::set_exception_behavior_raise();
  std::vector<World> ws; Req all = Req::all(), few; bool th = vk::thorough;
  ws.push_back(sw(1, 3, 0, 0, all)); ws.push_back(sw(1, 3, 1, 0, all)); ws.push_back(sw(3, 2, 1, 1, few)); ws.push_back(sw(3, 1, 2, 2, few)); ws.push_back(sw(3, 1, 1, 2, few)); if (th) { ws.push_back(sw(1, 4, 0, 0, few)); ws.push_back(sw(3, 2, 2, 1, few)); }
  std::vector<Ref> rs; auto ref = [&](Desc d, VI ghost, bool bg) { Opt o; o.ghost = ghost; o.bghost = bg; o.flip = 2; rs.push_back(elaborate(d, o)); };
  for (auto& d : family2d()) { if (d.name == "tri2") { ref(d, {}, false); ref(d, {0, 1}, true); } if (d.name == "quads2x1" || (th && (d.name == "ell" || d.name == "mixed"))) ref(d, {}, true); } ref(quads(2, 2), {0, 0, 1, 0}, true); ref(quads(3, 1), {0, 0, 1}, false); ref(quads(1, 3), {0, 0, 0}, true);
  for (auto& d : family3d()) { if (d.name == "tet2") { ref(d, {}, false); ref(d, {0, 1}, true); } if (d.name == "pyrhex" || (th && d.name == "hexes2x1x1")) ref(d, {}, false); } for (auto& d : familysurf()) if (d.name == "bent" || (th && d.name == "mixsurf")) ref(d, {}, false); ref(chain({0, 1, 2.5}), {}, false); ref(chain({0, 0.5, 1, 3}), {}, false);
  for (auto& r : rs) { Req q = r.md == 1 ? few : all; ws.push_back(rw(r, q, " " + rq(q))); if (th && r.md > 1) ws.push_back(rw(r, few, " " + rq(few))); }
  int lim = -1, single = th ? -1 : 4;
  for (size_t wi = 0; wi < ws.size(); wi++) { World w = ws[wi]; w.lim = th ? -1 : 4;
    for (int c = 0; c < NMESH; c++) vk::run(w.name + " / " + CN[c], [=] { auto s = subject(w); changes(s, c, lim, single); });
    for (int c = 0; c < NMESH; c++) for (int d = 0; d < NEWSET; d++) { vk::run(w.name + " / " + CN[c] + " / " + CN[d], [=] { auto s = subject(w); twice(s, c, d, th ? 8 : 2); }); }
    // replaced by another of the same class
    auto cls = [](World const& x) { return x.name.substr(0, 6) == "simple"; };
    for (size_t vi = 0; vi < ws.size(); vi++) { if (vi == wi || cls(ws[vi]) != cls(w)) continue; World v = ws[vi]; v.lim = w.lim; vk::run(v.name + " replaced by " + w.name, [=] { auto a = subject(v), b = subject(w); replaced<WH>(a, b, -1, -1, lim, single, [](WH& h) { return (void const*)h.w.m.get(); }); if (th && !vk::failed()) replaced<WH>(a, b, MOVE, -1, lim, 2, [](WH& h) { return (void const*)h.w.m.get(); }); }); } }
  // states
  std::vector<Subject<SW>> ss; for (int v = 0; v < 2; v++) { ss.push_back(states("state " + std::to_string(v) + " on segments", v, [](Req q) { return simple1(4, q); })); Ref r = elaborate(quads(4, 1), [] { Opt o; o.ghost = {0, 0, 0, 1}; return o; }()); ss.push_back(states("state " + std::to_string(v) + " on quads", v, [r](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); })); }
  for (auto& s : ss) { for (int c = 0; c < NSTATE; c++) { vk::run(s.name + " / " + SN[c], [=] { changes(s, c, -1, -1); }); for (int d = 0; d < NSTATE; d++) vk::run(s.name + " / " + SN[c] + " / " + SN[d], [=] { twice(s, c, d, -1); }); }
    for (auto& t : ss) if (t.name != s.name && (t.name.find("seg") == std::string::npos) == (s.name.find("seg") == std::string::npos)) for (int c = -1; c < NSTATE; c++) vk::run(t.name + " replaced by " + s.name + (c < 0 ? "" : std::string(" / ") + SN[c]), [=] { replaced<SW>(t, s, -1, c, -1, -1, [](SW& w) { return (void const*)w.s.get(); }); if (c >= 0 && !vk::failed()) replaced<SW>(s, s, -1, c, -1, 2, [](SW& w) { return (void const*)w.s.get(); }); }); }
  // models
  std::vector<VI> starts = {{}}; for (int i = 0; i < 4; i++) { starts.push_back({i}); for (int j = 0; j < 4; j++) if (j != i) { starts.push_back({i, j}); for (int k = 0; k < 4; k++) if (k != i && k != j) starts.push_back({i, j, k}); } }
  auto R = std::make_shared<std::vector<std::shared_ptr<Region>>>(gregs());
  for (auto& st : starts) vk::run("model " + vk::str(st), [=] { auto s = models(R, st); for (int c = 0; c < 4; c++) { if (std::find(st.begin(), st.end(), c) != st.end()) continue; changes(s, c, -1, -1); for (int d = 0; d < 4; d++) if (d != c && std::find(st.begin(), st.end(), d) == st.end()) twice(s, c, d, -1); if (vk::failed()) return; }
    for (auto& o : starts) { if (o.size() != st.size() && !th) continue; replaced<GW>(models(R, o), s, -1, -1, -1, -1, [](GW& w) { return (void const*)w.g.get(); }); if (vk::failed()) return; } });
  for (int sd = 2; sd <= 3; sd++) for (int k = 0; k < 5; k++) for (int v = 0; v < 2; v++) vk::run("region " + region(k, v, sd).name, [=] { replaced<RW>(region(k, 1 - v, sd), region(k, v, sd), -1, -1, -1, -1, [](RW& w) { return (void const*)w.r.get(); }); });
}
