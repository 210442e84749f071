// C19: histories of adding and looking up state vectors
#include "tiles.hh"
#include "JaliState.h"
#include <deque>
using namespace ref;
typedef std::array<double, 3> A3;
typedef std::shared_ptr<Jali::State> StP;
typedef Jali::StateVectorBase SVB;
static Entity_kind const KIND[7] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CORNER, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE};
static Entity_type const TYPE[4] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL, Entity_type::BOUNDARY_GHOST};
static char const* NAME[] = {"a", "aa", "", "zz", "b", "v1", "v2", "v10", "v11", "v 12", "density", "density of material", "Density", "x_velocity", "y_velocity", "a name that is rather long, much longer than names are", "m0", "m1"};
struct Key { int name, dom, kind, type, T, multi; bool operator<(Key const& o) const { return std::tie(name, dom, kind, type, T, multi) < std::tie(o.name, o.dom, o.kind, o.type, o.T, o.multi); } bool operator==(Key const& o) const { return !(*this < o) && !(o < *this); }
  std::string str() const { return std::string("\"") + NAME[name] + "\" dom" + std::to_string(dom) + " kind" + std::to_string(kind) + " type" + std::to_string(type) + " T" + std::to_string(T) + (multi ? " multi" : " uni"); } };
struct Op { Key k; int how; std::string str() const { return std::string(how == 0 ? "add(uninit) " : how == 1 ? "add(value) " : how == 2 ? "add(data) " : how == 3 ? "add(copy) " : "add(copy from other mesh) ") + k.str(); } };
struct World { std::shared_ptr<Jali::Mesh> m, m2; std::vector<TileP> t; StP s; std::vector<SVB*> ptr; };
template <class D> struct Dom; // domain object of a key
template <> struct Dom<Jali::Mesh> { static std::shared_ptr<Jali::Mesh> get(World& w, int) { return w.m; } };
template <> struct Dom<Jali::MeshTile> { static TileP get(World& w, int d) { return w.t[d - 1]; } };
static double g_rows[64][64];
template <class T> T mk(double v) { return T(v); }
template <> A3 mk<A3>(double v) { return A3{{v, v, v}}; }
template <class T> std::vector<T> data(int n) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(mk<T>(i + 1)); return v; }
// ---- the operation
template <class T, class D> SVB* add_uni(World& w, Key const& k, int how, std::false_type) {
  auto d = Dom<D>::get(w, k.dom); if (how == 0) return &w.s->template add<T, D, Jali::UniStateVector>(NAME[k.name], d, KIND[k.kind], TYPE[k.type]);
  if (how == 1) return &w.s->template add<T, D, Jali::UniStateVector>(NAME[k.name], d, KIND[k.kind], TYPE[k.type], mk<T>(7)); auto v = data<T>(100); return &w.s->add(NAME[k.name], d, KIND[k.kind], TYPE[k.type], (T const*)v.data()); }
template <class T, class D> SVB* add_uni(World& w, Key const& k, int how, std::true_type) {
  if (how < 3) return add_uni<T, D>(w, k, how, std::false_type());
  Jali::UniStateVector<T, D> x(NAME[k.name], how == 3 ? w.m : w.m2, nullptr, KIND[k.kind], TYPE[k.type], mk<T>(3)); return &w.s->add(x); }
template <class T, class D> SVB* add_multi(World& w, Key const& k, int how, std::false_type) {
  auto d = Dom<D>::get(w, k.dom); if (how == 0) return &w.s->template add<T, D, Jali::MultiStateVector>(NAME[k.name], d, KIND[k.kind], TYPE[k.type]);
  if (how == 1) return &w.s->template add<T, D, Jali::MultiStateVector>(NAME[k.name], d, KIND[k.kind], TYPE[k.type], mk<T>(7));
  auto v = data<T>(100); T const* p[64]; for (auto& q : p) q = v.data(); return &w.s->add(NAME[k.name], d, KIND[k.kind], TYPE[k.type], Jali::Data_layout::CELL_CENTRIC, (T const* const*)p); }
template <class T, class D> SVB* add_(World& w, Key const& k, int how) { typename std::is_same<D, Jali::Mesh>::type im; return k.multi ? add_multi<T, D>(w, k, how, std::false_type()) : add_uni<T, D>(w, k, how, im); }
template <class D> SVB* add1(World& w, Key const& k, int how) { return k.T == 0 ? add_<int, D>(w, k, how) : k.T == 1 ? add_<double, D>(w, k, how) : add_<A3, D>(w, k, how); }
static SVB* add(World& w, Op const& o) { return o.k.dom ? add1<Jali::MeshTile>(w, o.k, o.how) : add1<Jali::Mesh>(w, o.k, o.how); }
// ---- look-ups.  Each returns the vectors found by every overload.
struct Q { int name, dom, kind, type, T, multi; };    // kind -1: ANY
static Entity_kind qk(int k) { return k < 0 ? Entity_kind::ANY_KIND : KIND[k]; }
template <class It> static SVB* at(It i, It e) { return i == e ? nullptr : (*i).get(); }
template <class T, class D, template <class, class> class SV> static void handle(World& w, std::string const& n, std::shared_ptr<D> d, Q const& q, SVB* f, std::string const& cx) {
  StP s = w.s; SV<T, D> const* fv = dynamic_cast<SV<T, D> const*>(f); Jali::State const& cs = *s;
  SV<T, D> h; bool b = s->get(n, d, qk(q.kind), TYPE[q.type], &h); vk::ok(b == (f != nullptr), "get into a vector disagrees with find", cx);
  if (b && fv) vk::ok(h.name() == f->name() && h.entity_kind() == f->entity_kind() && h.entity_type() == f->entity_type() && h.domain() == fv->domain() && h.size() == f->size(), "vector retrieved is not the one found", cx);
  std::shared_ptr<SV<T, D>> p; b = s->get(n, d, qk(q.kind), TYPE[q.type], &p); vk::ok(b == (f != nullptr) && (SVB*)p.get() == f, "get of a shared pointer disagrees with find", cx);
  std::shared_ptr<SV<T, D> const> cp; b = cs.get(n, d, qk(q.kind), TYPE[q.type], &cp); vk::ok(b == (f != nullptr) && (SVB const*)cp.get() == f, "const get disagrees with find", cx);
  if (q.kind < 0 && q.type == 2) { p.reset(); b = s->get(n, d, &p); vk::ok(b == (f != nullptr) && (SVB*)p.get() == f, "get by name disagrees with find", cx); cp.reset(); b = cs.get(n, d, &cp); vk::ok(b == (f != nullptr) && (SVB const*)cp.get() == f, "const get by name disagrees with find", cx); }
}
static void meshget(World& w, std::string const& n, Q const& q, SVB* f, std::string const& cx) {
  if (q.kind >= 0 || q.type != 2 || q.dom) return;
  auto t = [&](bool b, std::string const& nm) { vk::ok(b == (f != nullptr) && (!b || nm == n), "get from the mesh by name disagrees with find", cx); };
  if (!q.multi) { if (q.T == 0) { Jali::UniStateVector<int> h; bool b = w.s->get(n, &h); t(b, h.name()); } if (q.T == 1) { Jali::UniStateVector<double> h; bool b = w.s->get(n, &h); t(b, h.name()); } }
  else if (q.T == 1) { Jali::MultiStateVector<double> h; bool b = w.s->get(n, &h); t(b, h.name()); } }
template <class D> struct Lk {
  static std::vector<SVB*> dom(World& w, Q const& q) { auto d = Dom<D>::get(w, q.dom); Jali::State const& c = *w.s; std::string n = NAME[q.name]; return {at(w.s->find(n, d, qk(q.kind), TYPE[q.type]), w.s->end()), at(c.find(n, d, qk(q.kind), TYPE[q.type]), c.cend())}; }
  template <Jali::StateVector_type V> static std::vector<SVB*> vt(World& w, Q const& q) { auto d = Dom<D>::get(w, q.dom); Jali::State const& c = *w.s; std::string n = NAME[q.name]; return {at(w.s->find<D, V>(n, d, qk(q.kind), TYPE[q.type]), w.s->end()), at(c.find<D, V>(n, d, qk(q.kind), TYPE[q.type]), c.cend())}; }
  template <class T, Jali::StateVector_type V> static std::vector<SVB*> full(World& w, Q const& q) { auto d = Dom<D>::get(w, q.dom); Jali::State const& c = *w.s; std::string n = NAME[q.name]; Entity_kind k = qk(q.kind); Entity_type t = TYPE[q.type];
    return {at(w.s->find<T, D, V>(n, d, k, t), w.s->end()), at(c.find<T, D, V>(n, d, k, t), c.cend())}; }
  template <class T> static std::vector<SVB*> typed(World& w, Q const& q, std::string const& cx) { std::vector<SVB*> r; auto d = Dom<D>::get(w, q.dom); Jali::State const& c = *w.s; std::string n = NAME[q.name]; Entity_kind k = qk(q.kind); Entity_type t = TYPE[q.type];
    if (q.multi) { r = full<T, Jali::StateVector_type::MULTIVAL>(w, q); r.push_back(at(w.s->find<T, D, Jali::MultiStateVector>(n, d, k, t), w.s->end())); r.push_back(at(c.find<T, D, Jali::MultiStateVector>(n, d, k, t), c.cend())); handle<T, D, Jali::MultiStateVector>(w, n, d, q, r[0], cx); }
    else { r = full<T, Jali::StateVector_type::UNIVAL>(w, q); r.push_back(at(w.s->find<T, D, Jali::UniStateVector>(n, d, k, t), w.s->end())); r.push_back(at(c.find<T, D, Jali::UniStateVector>(n, d, k, t), c.cend())); handle<T, D, Jali::UniStateVector>(w, n, d, q, r[0], cx); }
    meshget(w, n, q, r[0], cx); return r; }
  static std::vector<SVB*> t(World& w, Q const& q, std::string const& cx) { return q.T == 0 ? typed<int>(w, q, cx) : q.T == 1 ? typed<double>(w, q, cx) : typed<A3>(w, q, cx); }
};
static void judge(std::vector<SVB*> const& got, std::vector<SVB*> const& match, std::string const& what, std::string const& cx) {
  for (SVB* g : got) { vk::cmp(); if (!g && match.size()) { vk::fail(what + ": vector that was added not found", cx); return; } if (g && std::find(match.begin(), match.end(), g) == match.end()) { vk::fail(what + (match.empty() ? ": found although never added" : ": another vector found"), cx); return; } } }
static void examine(World& w, std::vector<Key> const& M, std::string const& cx, std::vector<Key> const& A, int ntiles) {
  auto& s = *w.s; Jali::State const& cs = s; size_t n = M.size();
  vk::eq((size_t)s.size(), n, "number of vectors", cx); vk::eq((size_t)(s.end() - s.begin()), n, "iteration over all vectors", cx); vk::eq((size_t)(cs.cend() - cs.cbegin()), n, "const iteration over all vectors", cx); vk::eq((size_t)(s.names_end() - s.names_begin()), n, "iteration over all names", cx);
  if (vk::failed()) return;
  for (size_t i = 0; i < n; i++) { Key const& k = M[i]; SVB* p = w.ptr[i]; vk::ok((s.begin() + i)->get() == p && (cs.cbegin() + i)->get() == p && s[i].get() == p && cs[i].get() == p, "vectors listed in the order added", cx + " #" + std::to_string(i)); if (vk::failed()) return;
    vk::ok(*(s.names_begin() + i) == NAME[k.name], "names listed in the order added", cx);
    vk::ok(p->name() == NAME[k.name] && p->entity_kind() == KIND[k.kind] && p->entity_type() == TYPE[k.type], "name, kind or type of a vector", cx + " " + k.str());
    vk::ok(p->type() == (k.multi ? Jali::StateVector_type::MULTIVAL : Jali::StateVector_type::UNIVAL), "uni- or multivalued", cx); vk::ok(p->data_type() == (k.T == 0 ? typeid(int) : k.T == 1 ? typeid(double) : typeid(A3)), "data type", cx); }
  for (int k = (int)Entity_kind::NODE; k <= (int)Entity_kind::CELL; k++) { Entity_kind ek = (Entity_kind)k; std::vector<SVB*> want; std::vector<std::string> wn; for (size_t i = 0; i < n; i++) if (KIND[M[i].kind] == ek) { want.push_back(w.ptr[i]); wn.push_back(NAME[M[i].name]); }
    std::vector<SVB*> got; std::vector<std::string> gn; size_t c = s.entity_end(ek) - s.entity_begin(ek); if (!vk::eq(c, want.size(), "number of vectors of a kind", cx)) return; if (!vk::eq((size_t)(s.names_entity_end(ek) - s.names_entity_begin(ek)), want.size(), "number of names of a kind", cx)) return;
    { size_t base = 0; auto b = s.entity_begin(ek); (void)base; for (size_t i = 0; i < c; i++, ++b) { long off = &*b - &*s.begin(); if (!vk::ok(off >= 0 && off < (long)n, "iteration over a kind leaves the list of vectors", cx)) return; got.push_back(b->get()); } }
    { auto b = s.names_entity_begin(ek); for (size_t i = 0; i < c; i++, ++b) { long off = &*b - &*s.names_begin(); if (!vk::ok(off >= 0 && off < (long)n, "iteration over names of a kind leaves the list of names", cx)) return; gn.push_back(*b); } }
    vk::ok(got == want, "vectors of a kind", cx + " kind " + std::to_string(k)); vk::eq(gn, wn, "names of vectors of a kind", cx); if (vk::failed()) return; }
  std::set<int> names, kinds, types; for (auto& k : A) { names.insert(k.name); kinds.insert(k.kind); types.insert(k.type); } names.insert(3); kinds.insert(-1); kinds.insert(3); types.insert(2); types.insert(3);
  for (int nm : names) for (int kd : kinds) for (int ty : types) {
    auto ms = [&](int d, int v, int T) { std::vector<SVB*> r; for (size_t i = 0; i < n; i++) if (M[i].name == nm && (kd < 0 || M[i].kind == kd) && (ty == 2 || M[i].type == ty) && (d < 0 || M[i].dom == d) && (v < 0 || M[i].multi == v) && (T < 0 || M[i].T == T)) r.push_back(w.ptr[i]); return r; };
    std::string c = cx + " look up " + NAME[nm] + " kind " + std::to_string(kd) + " type " + std::to_string(ty); Q q = {nm, 0, kd, ty, 0, 0};
    { Jali::State const& cc = s; std::vector<SVB*> r = {at(s.find(NAME[nm], qk(kd), TYPE[ty]), s.end()), at(cc.find(NAME[nm], qk(kd), TYPE[ty]), cc.cend())}; if (ty == 2) { r.push_back(at(s.find(NAME[nm], qk(kd)), s.end())); if (kd < 0) r.push_back(at(s.find(NAME[nm]), s.end())); } judge(r, ms(-1, -1, -1), "by name", c); }
    for (int d = 0; d <= ntiles; d++) { q.dom = d; std::string cd = c + " dom " + std::to_string(d); judge(d ? Lk<Jali::MeshTile>::dom(w, q) : Lk<Jali::Mesh>::dom(w, q), ms(d, -1, -1), "by name and domain", cd);
      for (int v = 0; v < 2; v++) { q.multi = v; auto const U = Jali::StateVector_type::UNIVAL; auto const X = Jali::StateVector_type::MULTIVAL;
        judge(d ? (v ? Lk<Jali::MeshTile>::vt<X>(w, q) : Lk<Jali::MeshTile>::vt<U>(w, q)) : (v ? Lk<Jali::Mesh>::vt<X>(w, q) : Lk<Jali::Mesh>::vt<U>(w, q)), ms(d, v, -1), "by name, domain and vector type", cd);
        for (int T = 0; T < 3; T++) { q.T = T; judge(d ? Lk<Jali::MeshTile>::t(w, q, cd) : Lk<Jali::Mesh>::t(w, q, cd), ms(d, v, T), "by name, domain, vector and data type", cd + " T" + std::to_string(T) + (v ? " multi" : "")); } } } if (vk::failed()) return; }
  vk::eq((size_t)s.size(), n, "look-ups added vectors", cx);
}
static int find(std::vector<Key> const& M, Key const& k) { for (size_t i = 0; i < M.size(); i++) if (M[i] == k) return i; return -1; }
// adding on ALL when a vector on a part of these exists: the wildcard reading of ALL makes this ambiguous
static bool ambiguous(std::vector<Key> const& M, Key k) { if (k.type != 2) return false; if (find(M, k) >= 0) { } for (auto& m : M) { Key x = m; x.type = 2; if (x == k && m.type != 2) return true; } return false; }
struct WF { std::string name; std::function<void(World&)> make; int ntiles; };
static void start(WF const& f, World& w, int nmat) { f.make(w); w.t.clear(); for (auto t : w.m->tiles()) w.t.push_back(t); w.s = Jali::State::create(w.m); w.ptr.clear(); for (int i = 0; i < nmat; i++) w.s->add_material("mat" + std::to_string(i), i ? VI{1} : VI{0, 1}); }
static void explore(WF const& f, std::vector<Op> const& ops, int depth, int nmat) {
  std::vector<Key> A; std::set<Key> as; for (auto& o : ops) as.insert(o.k); A.assign(as.begin(), as.end());
  typedef std::vector<Key> St; struct Nd { std::vector<int> h; St M; }; std::deque<Nd> q; std::set<St> seen; q.push_back({{}, {}}); seen.insert(St()); vk::states();
  World w0; start(f, w0, nmat); World w; w.m = w0.m; w.m2 = w0.m2; w.t = w0.t; examine(w0, {}, "start", A, f.ntiles);
  auto fresh = [&] { w.s = Jali::State::create(w.m); w.ptr.clear(); auto& ss = w.m->sets(); for (int i = 0; i < nmat; i++) { (void)ss; w.s->add_material("m" + std::to_string(i), i ? VI{1} : VI{0, 1}); } };
  while (!q.empty() && !vk::failed()) { Nd nd = q.front(); q.pop_front(); vk::beat();
    for (size_t oi = 0; oi < ops.size(); oi++) { Op const& o = ops[oi]; if (ambiguous(nd.M, o.k)) continue;
      fresh(); std::string cx; for (int p : nd.h) { SVB* a = add(w, ops[p]); bool isnew = (size_t)w.s->size() > w.ptr.size(); if (isnew) w.ptr.push_back(a); cx += ops[p].str() + "; "; } cx += o.str(); vk::set_current(cx);
      SVB* a = add(w, o); St M = nd.M; int i = find(M, o.k); vk::transitions(); vk::traces();
      if (i >= 0) vk::ok(a == w.ptr[i], "adding a duplicate returns another vector"); else { for (auto p : w.ptr) vk::ok(a != p, "an existing vector returned for a new one"); M.push_back(o.k); w.ptr.push_back(a); }
      examine(w, M, "", A, f.ntiles); if (vk::failed()) return;
      if (seen.insert(M).second) { vk::states(); if ((int)nd.h.size() + 1 < depth) { auto h = nd.h; h.push_back(oi); q.push_back({h, M}); } } } }
}
// one long history of many vectors, every vector added again after all
static void lengthy(WF const& f, std::vector<Op> const& ops, int nmat, int every) {
  World w; start(f, w, nmat); std::vector<Key> M, A; std::set<Key> as; for (auto& o : ops) as.insert(o.k); int n = 0;
  for (int pass = 0; pass < 2; pass++) for (auto& o : ops) { if (ambiguous(M, o.k)) continue; vk::set_current("long history, vector " + std::to_string(n) + ": " + o.str()); SVB* a = add(w, o); int i = find(M, o.k); vk::transitions();
    if (i >= 0) vk::ok(a == w.ptr[i], "adding a duplicate returns another vector"); else { for (auto p : w.ptr) vk::ok(a != p, "an existing vector returned for a new one"); M.push_back(o.k); w.ptr.push_back(a); vk::states(); }
    n++; if (n % every == 0 || n == (int)ops.size() || n == 2 * (int)ops.size()) { A.assign(M.begin(), M.end()); examine(w, M, "", A, f.ntiles); vk::beat(); } if (vk::failed()) return; }
  vk::traces();
}
VK_CHECK("C19", "model_checking", "breadth-first search over registry states (ordered lists of name, domain, kind, type, element type, uni/multi of the vectors added) under every way of adding (uninitialized, by value, by data array or rectangular table, by copy of a vector on this or another mesh), each transition replayed from its whole history on a real State and followed by every look-up through every overload, iteration over all and over each kind, names, counts and metadata; long histories of up to 70 vectors on seven kinds, each added twice; 43 names that are easily taken for one another; vectors that hold nothing or were cleared; a case is a mesh, alphabet of operations and depth") {
  std::vector<WF> fs;
  { WF f; f.name = "quads2x1 ghost, 2 tiles"; f.ntiles = 2; f.make = [](World& w) { Opt o; o.ghost = {0, 0, 0, 1}; o.bghost = true; Req q = Req::all(); q.tiles = 2; q.tghost = 1; w.m = make(elaborate(quads(2, 2), o), q); w.m2 = make(elaborate(quads(2, 2), o), q); }; fs.push_back(f); }
  { WF f; f.name = "simple 2x1x1"; f.ntiles = 0; f.make = [](World& w) { Req q; w.m = simple3(2, 1, 1, q); w.m2 = simple3(2, 1, 1, q); }; fs.push_back(f); }
  { WF f; f.name = "simple 1d"; f.ntiles = 1; f.make = [](World& w) { Req q = Req::all(); q.tiles = 1; w.m = simple1(3, q); w.m2 = simple1(3, q); }; fs.push_back(f); }
  for (auto& f : fs) for (int nmat = 0; nmat < 3; nmat += 2) {
    auto mkops = [&](std::vector<int> names, std::vector<int> kinds, std::vector<int> types, std::vector<int> Ts, std::vector<int> multi, std::vector<int> hows, int maxdom) { std::vector<Op> v;
      for (int d = 0; d <= std::min(maxdom, f.ntiles); d++) for (int n : names) for (int k : kinds) for (int t : types) for (int T : Ts) for (int m : multi) for (int h : hows) { Key key = {n, d, k, t, T, m}; if (h >= 3 && d) continue; if (h >= 3 && m) continue;/* does not compile */ if (m && k) continue; v.push_back({key, h}); } return v; };
    auto go = [&](std::string nm, std::vector<Op> ops, int D) { vk::run(f.name + " " + std::to_string(nmat) + " materials, " + nm + " depth " + std::to_string(D), [=] { explore(f, ops, D, nmat); }); };
    int x = vk::thorough ? 1 : 0;
    go("all keys", mkops({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1}, {0, 1, 2, 3, 4}, 2), 1);
    for (int h1 = 0; h1 < 5; h1++) go("pairs, how " + std::to_string(h1), mkops({0, 1}, {0, 1}, {0, 2}, {0, 1}, {0, 1}, {h1}, 2), 2);
    go("names x kinds", mkops({0, 1}, {0, 1, 2}, {2}, {1}, {0}, {0, 1, 2, 3}, 0), 3 + x);
    go("domains x ways", mkops({0}, {0, 1}, {2}, {1}, {0}, {0, 1, 2, 3, 4}, 2), 3 + x);
    go("types x elements", mkops({0}, {0}, {0, 1, 2}, {0, 1}, {0, 1}, {0, 2}, 0), 3 + x);
    for (int h1 = 0; h1 < 4; h1++) go("kinds, how " + std::to_string(h1), mkops({0, 1}, {0, 1, 2}, {2}, {0}, {0}, {h1}, 0), 4 + x);
    go("all seven kinds", mkops({0}, {0, 1, 2, 3, 4, 5, 6}, {2}, {1}, {0}, {1}, 1), 2 + x);
    for (int v = 0; v < 4; v++) { auto o = v == 0 ? mkops({0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, {0, 1, 2}, {2}, {1}, {0}, {1}, 0) : v == 1 ? mkops({10, 11, 12, 0, 1}, {0, 1, 2, 4, 5, 6}, {0, 2}, {1}, {0}, {0}, 1) : v == 2 ? mkops({16, 17, 5, 6, 7, 8}, {0}, {0, 2}, {0, 1, 2}, {0, 1}, {1}, 2) : mkops({13, 14, 9}, {1, 0}, {1, 0}, {0, 1}, {0, 1}, {2}, 2);
      for (int rv = 0; rv < 2; rv++) { if (rv) std::reverse(o.begin(), o.end()); vk::run(f.name + " " + std::to_string(nmat) + " materials, long history " + std::to_string(v) + (rv ? " backwards" : ""), [=] { lengthy(f, o, nmat, vk::thorough ? 3 : 25); }); } }
    go("mixed uni multi", mkops({0, 1}, {0}, {2}, {0, 1}, {0, 1}, {1, 3}, 1), 3 + x);
  }
  // vectors that hold nothing: on ghosts where there are none, and cleared ones
  { WF f; f.name = "no ghosts, 2 tiles"; f.ntiles = 2; f.make = [](World& w) { Req q = Req::all(); q.tiles = 2; w.m = make(elaborate(quads(2, 2), Opt()), q); w.m2 = make(elaborate(quads(2, 2), Opt()), q); };
    for (int nmat = 0; nmat < 3; nmat += 2) { std::vector<Op> v; for (int d = 0; d < 3; d++) for (int n : {0, 1}) for (int k : {0, 1, 3}) for (int t : {1, 2}) for (int T : {0, 1}) for (int m = 0; m < 2; m++) for (int h : {0, 1, 2}) { if (m && k) continue; if (n && (T || m || k)) continue; if (h == 2 && (T || k)) continue; if (t == 2 && (k || h == 0)) continue; v.push_back({Key{n, d, k, t, T, m}, h}); }
      vk::run(f.name + " " + std::to_string(nmat) + " materials, vectors that hold nothing", [=] { explore(f, v, vk::thorough ? 3 : 2, nmat); });
      std::vector<Op> e; for (int d = 0; d < 3; d++) for (int t : {1, 2}) for (int T : {0, 1}) e.push_back({Key{0, d, 0, t, T, 0}, 1});
      for (size_t i = 0; i < e.size(); i++) vk::run(f.name + " " + std::to_string(nmat) + " materials, cleared vector " + e[i].k.str(), [=] { World w; start(f, w, nmat); std::vector<Key> A, M; for (auto& o : e) A.push_back(o.k); for (size_t j = 0; j <= e.size(); j++) { Op o = j ? e[j - 1] : e[i]; if (ambiguous(M, o.k)) continue; SVB* a = add(w, o); int at = find(M, o.k); if (at < 0) { M.push_back(o.k); w.ptr.push_back(a); } else vk::ok(a == w.ptr[at], "adding a duplicate returns another vector"); if (auto u = dynamic_cast<Jali::UniStateVectorBase<Jali::Mesh>*>(a)) u->resize(0); if (auto u = dynamic_cast<Jali::UniStateVectorBase<Jali::MeshTile>*>(a)) u->resize(0); vk::transitions(); examine(w, M, "all cleared", A, f.ntiles); if (vk::failed()) return; } vk::states(); vk::traces(); }); } }
  // names that are easily taken for one another, half of them in use
  for (int par = 0; par < 4; par++) vk::run("like names " + std::to_string(par), [=] { auto nm = vk::names(); int n = nm.size(); Req q = Req::all(); auto m = simple1(3, q); auto s = Jali::State::create(m); std::vector<std::string> in; Entity_kind K[2] = {Entity_kind::CELL, Entity_kind::NODE};
    for (int j = 0; j < n; j++) { int i = par >= 2 ? n - 1 - j : j; for (int k = 0; k < 2; k++) if ((i + k + par) % 2) { s->add<double, Jali::Mesh, Jali::UniStateVector>(nm[i], m, K[k], Entity_type::ALL, 1.0 + i); in.push_back(nm[i]); vk::transitions(); } } vk::states(); vk::traces();
    vk::eq((int)s->size(), (int)in.size(), "number of vectors"); int t = 0; for (auto it = s->names_begin(); it != s->names_end() && t < (int)in.size(); ++it) vk::eq(*it, in[t++], "names listed in the order added");
    for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { bool have = (i + k + par) % 2; Jali::UniStateVector<double, Jali::Mesh> v; bool got = s->get(nm[i], m, K[k], Entity_type::ALL, &v); vk::eq(got, have, "vector found by name", "\"" + nm[i] + "\""); if (got && have) { vk::eq(v.name(), nm[i], "name of the vector found"); vk::eq(v[0], 1.0 + i, "value of the vector found"); }
      vk::eq(s->find<double, Jali::Mesh, Jali::UniStateVector>(nm[i], m, K[k], Entity_type::ALL) != s->end(), have, "vector found by name", "\"" + nm[i] + "\""); } });
}
