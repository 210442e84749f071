// C22: exchanging fields between state and mesh
#include "tiles.hh"
#include "JaliState.h"
#include <deque>
using namespace ref;
typedef std::array<double, 2> A2; typedef std::array<double, 3> A3; typedef std::array<double, 6> A6;
typedef std::shared_ptr<Jali::State> StP;
typedef std::vector<double> VD;
static char const* TN[] = {"int", "double", "array2", "array3", "array6", "float", "array4"};
static int const TW[] = {1, 1, 2, 3, 6, 1, 4};
static char const* KNM(int k) { return k == (int)Entity_kind::NODE ? "node" : k == (int)Entity_kind::EDGE ? "edge" : k == (int)Entity_kind::FACE ? "face" : k == (int)Entity_kind::CELL ? "cell" : k == (int)Entity_kind::WEDGE ? "wedge" : "other"; }
// a vector of the state: key and contents
struct Vec { std::string name; int dom; Entity_kind kind; Entity_type type; int T; bool multi; VD v;
  bool same(Vec const& o) const { return name == o.name && dom == o.dom && kind == o.kind && type == o.type && T == o.T && multi == o.multi; }
  bool operator<(Vec const& o) const { return std::tie(name, dom, kind, type, T, multi, v) < std::tie(o.name, o.dom, o.kind, o.type, o.T, o.multi, o.v); }
  std::string str() const { return "\"" + name + "\" " + (multi ? "multi " : "") + KNM((int)kind) + " type" + std::to_string((int)type) + " " + TN[T] + (dom ? " on tile" : ""); } };
typedef RefMesh::Field Fld;
namespace ref { static bool operator<(Fld const& a, Fld const& b) { return std::tie(a.name, a.kind, a.type, a.width, a.v) < std::tie(b.name, b.kind, b.type, b.width, b.v); } }
namespace ref { static bool operator==(Fld const& a, Fld const& b) { return !(a < b) && !(b < a); } }
struct Model { std::vector<Vec> s; std::vector<Fld> m; bool operator<(Model const& o) const { return std::tie(s, m) < std::tie(o.s, o.m); } };
struct World { std::shared_ptr<RefMesh> m; TileP t; StP s; };
template <class T> T mk(double const* p) { T r; for (int j = 0; j < RefMesh::wid((T*)nullptr); j++) RefMesh::comp(r, j) = p[j]; return r; }
template <> float mk<float>(double const* p) { return *p; }
template <> std::array<double, 4> mk<std::array<double, 4>>(double const* p) { return {{p[0], p[1], p[2], p[3]}}; }
template <class T> void un(T& t, VD& o) { for (int j = 0; j < RefMesh::wid(&t); j++) o.push_back(RefMesh::comp(t, j)); }
static void un(float& t, VD& o) { o.push_back(t); }
static void un(std::array<double, 4>& t, VD& o) { o.insert(o.end(), t.begin(), t.end()); }
static VD pattern(int id, int ver, int n) { VD v; for (int i = 0; i < n; i++) v.push_back(id * 1000 + ver * 500 + 3 * i + 1); return v; }
// ---- typed access, dispatched over element type and domain
template <class T, class D> struct Acc {
  static std::shared_ptr<D> dom(World& w) { return std::get<std::is_same<D, Jali::MeshTile>::value>(std::make_tuple(std::shared_ptr<Jali::Mesh>(w.m), w.t)); }
  static void add(World& w, Vec const& x) { std::vector<T> d; int k = TW[x.T]; for (size_t i = 0; i * k < x.v.size(); i++) d.push_back(mk<T>(&x.v[i * k]));
    d.reserve(d.size() + 1); w.s->add(x.name, dom(w), x.kind, x.type, (T const*)d.data()); }
  static void addm(World& w, Vec const& x) { w.s->template add<T, D, Jali::MultiStateVector>(x.name, dom(w), x.kind, x.type, mk<T>(x.v.data())); }
  static bool get(World& w, Vec const& x, VD& out) { if (x.multi) { Jali::MultiStateVector<T, D> h; return w.s->get(x.name, dom(w), x.kind, x.type, &h); }
    Jali::UniStateVector<T, D> h; if (!w.s->get(x.name, dom(w), x.kind, x.type, &h)) return false; for (int i = 0; i < h.size(); i++) { T t = h[i]; un(t, out); } return true; }
  static void write(World& w, Vec const& x) { Jali::UniStateVector<T, D> h; if (!w.s->get(x.name, dom(w), x.kind, x.type, &h)) return; int k = TW[x.T]; for (int i = 0; i < h.size() && (i + 1) * k <= (int)x.v.size(); i++) h[i] = mk<T>(&x.v[i * k]); }
};
#define DISP(CALL) switch (x.T) { case 0: { typedef int T; CALL; } break; case 1: { typedef double T; CALL; } break; case 2: { typedef A2 T; CALL; } break; case 3: { typedef A3 T; CALL; } break; case 4: { typedef A6 T; CALL; } break; case 5: { typedef float T; CALL; } break; default: { typedef std::array<double, 4> T; CALL; } }
static void add(World& w, Vec const& x) { if (x.multi) { Acc<double, Jali::Mesh>::addm(w, x); return; } if (x.dom) { DISP((Acc<T, Jali::MeshTile>::add(w, x))) } else { DISP((Acc<T, Jali::Mesh>::add(w, x))) } }
static bool get(World& w, Vec const& x, VD& o) { bool b = false; if (x.multi) return Acc<double, Jali::Mesh>::get(w, x, o); if (x.dom) { DISP((b = Acc<T, Jali::MeshTile>::get(w, x, o))) } else { DISP((b = Acc<T, Jali::Mesh>::get(w, x, o))) } return b; }
static void write(World& w, Vec const& x) { if (x.multi) return; if (x.dom) { DISP((Acc<T, Jali::MeshTile>::write(w, x))) } else { DISP((Acc<T, Jali::Mesh>::write(w, x))) } }
// ---- operations
struct Op { int what; int i; };       // 0 add vector i, 1 write vector i (2nd version), 2 mesh gets field i, 3 export, 4 import, 5 new state
struct Alpha { std::vector<Vec> v; std::vector<Fld> f; };
static std::string ostr(Op const& o, Alpha const& A) { switch (o.what) { case 0: return "add " + A.v[o.i].str(); case 1: return "write " + A.v[o.i].str(); case 2: return "mesh field " + A.f[o.i].name + " " + KNM(A.f[o.i].kind) + " " + A.f[o.i].type + std::to_string(A.f[o.i].width) + (A.f[o.i].bad ? " unreadable" : ""); case 3: return "export"; case 4: return "import"; default: return "new state"; } }
static int count(World& w, Vec const& x) { if (x.dom) return w.t->num_entities(x.kind, x.type); return w.m->num_entities(x.kind, x.type); }
static VD vals(World& w, Alpha const& A, int i, int ver) { Vec const& x = A.v[i]; return pattern(i + 1, ver, count(w, x) * TW[x.T]); }
// element type of the vector made from a field; -1: none, -2: not judged
static int ttype(Fld const& f, int sd) { if (f.kind == (int)Entity_kind::EDGE) return -2; if (f.bad) return -1; if (f.type == "INT") return 0; if (f.type == "DOUBLE") return 1; if (sd == 1) return f.type == "VECTOR" || f.type == "TENSOR" ? -2 : -1;
  if (f.type == "VECTOR") return f.width == sd ? sd == 2 ? 2 : 3 : -1; if (f.type == "TENSOR") return sd == 2 && f.width == 3 ? 3 : sd == 3 && f.width == 6 ? 4 : -1; return -1; }
static bool exportable(World& w, Vec const& x) { return !x.multi && !x.dom && x.T <= 4 && RefMesh::fkind(x.kind) && x.v.size() == (size_t)w.m->num_entities(x.kind, Entity_type::ALL) * TW[x.T]; }
static Fld fieldof(Vec const& x, int sd) { Fld f; f.name = x.name; f.kind = (int)x.kind; f.width = TW[x.T]; f.type = x.T == 0 ? "INT" : x.T == 1 ? "DOUBLE" : x.T == 2 || (x.T == 3 && sd == 3) ? "VECTOR" : "TENSOR"; f.v = x.v; f.bad = false; return f; }
static int findv(std::vector<Vec> const& s, Vec const& x) { for (size_t i = 0; i < s.size(); i++) if (s[i].same(x)) return i; return -1; }
// does adding x meet a vector that the wildcard reading of types makes a duplicate (see C19)?
static bool clash(std::vector<Vec> const& s, Vec x) { for (auto& y : s) if (y.name == x.name && y.dom == x.dom && y.kind == x.kind && y.T == x.T && y.multi == x.multi && (y.type != x.type)) return true; return false; }
static Vec vecof(Fld const& f, int T) { Vec x; x.name = f.name; x.dom = 0; x.kind = (Entity_kind)f.kind; x.type = Entity_type::ALL; x.T = T; x.multi = false; x.v = f.v; return x; }
// apply o to the real code and to the model; false: history not judged beyond this point
static bool step(World& w, Model& M, Op const& o, Alpha const& A, bool judge) {
  int sd = w.m->R.sd;
  switch (o.what) {
    case 0: { Vec x = A.v[o.i]; x.v = vals(w, A, o.i, 0); if (clash(M.s, x)) return false; add(w, x); if (x.multi) x.v.clear(); if (findv(M.s, x) < 0) M.s.push_back(x); return true; }
    case 1: { Vec x = A.v[o.i]; int j = findv(M.s, x); if (j < 0 || x.multi) return false; x.v = vals(w, A, o.i, 1); if (x.v.size() != M.s[j].v.size()) return false; write(w, x); M.s[j].v = x.v; return true; }
    case 2: { Fld f = A.f[o.i]; for (auto& g : M.m) if (g.name == f.name && g.kind == f.kind) return false; f.v = pattern(50 + o.i, 0, w.m->num_entities((Entity_kind)f.kind, Entity_type::ALL) * f.width); w.m->fields.push_back(f); M.m = w.m->fields; return true; }
    case 3: { w.m->stored.clear(); w.s->export_to_mesh(); M.m = w.m->fields; if (!judge) return true;
      std::vector<Fld> want, got; for (auto& x : M.s) if (exportable(w, x)) want.push_back(fieldof(x, sd));
      for (auto& f : w.m->stored) if (RefMesh::fkind((Entity_kind)f.kind)) got.push_back(f);
      std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); vk::cmp();
      if (got.size() != want.size()) vk::fail("number of fields handed to the mesh", "got " + std::to_string(got.size()) + " expected " + std::to_string(want.size()));
      else if (!(got == want)) { for (size_t i = 0; i < got.size(); i++) if (!(got[i] == want[i])) { bool nm = got[i].name == want[i].name && got[i].kind == want[i].kind && got[i].type == want[i].type && got[i].width == want[i].width; vk::fail(nm ? "values handed to the mesh" : "name, kind or type of a field handed to the mesh", want[i].name + " got " + got[i].name + " kind " + std::to_string(got[i].kind) + " " + got[i].type + " " + vk::str(got[i].v) + " expected " + vk::str(want[i].v)); break; } }
      return true; }
    case 4: { auto before = M.s; w.s->init_from_mesh(); size_t extra = 0; bool unsure = false;
      for (auto& f : M.m) { int T = ttype(f, sd); if (T == -2) { unsure = true; continue; } if (T < 0) continue; Vec x = vecof(f, T); int j = findv(M.s, x);
        if (j >= 0 || clash(M.s, x)) { if (j >= 0) { VD v; if (get(w, M.s[j], v) && v == x.v) M.s[j].v = v; } continue; }   // already there: keeps its values or takes the mesh's
        M.s.push_back(x); extra++; }
      (void)extra; return !unsure; }
    default: w.s = Jali::State::create(w.m); M.s.clear(); return true;
  }
}
static void examine(World& w, Model const& M) {
  if (!vk::eq((size_t)w.s->size(), M.s.size(), "number of vectors in the state")) return;
  for (auto& x : M.s) { VD v; if (!vk::ok(get(w, x, v), "vector not found", x.str())) return; if (x.multi) continue; if (!vk::eq(v, x.v, "values of a vector", x.str())) return; }
  vk::ok(w.m->fields == M.m, "fields of the mesh");
}
struct WF { std::string name; std::function<std::shared_ptr<RefMesh>()> make; };
static void explore(WF const& f, Alpha const& A, std::vector<Op> const& ops, int depth) {
  World w; w.m = f.make(); if (w.m->num_tiles()) w.t = w.m->tiles()[0];
  struct Nd { std::vector<Op> h; Model M; }; std::deque<Nd> q; std::set<Model> seen; q.push_back(Nd()); seen.insert(Model()); vk::states();
  while (!q.empty() && !vk::failed()) { Nd nd = q.front(); q.pop_front(); vk::beat();
    for (auto& o : ops) { if (o.what == 0 && A.v[o.i].dom && !w.t) continue;
      w.s = Jali::State::create(w.m); w.m->fields.clear(); Model M; std::string cx; for (auto& p : nd.h) { step(w, M, p, A, false); cx += ostr(p, A) + "; "; } cx += ostr(o, A); vk::set_current(cx);
      bool ok = step(w, M, o, A, true); if (!ok) continue; vk::transitions(); vk::traces(); examine(w, M); if (vk::failed()) return;
      if (seen.insert(M).second) { vk::states(); if ((int)nd.h.size() + 1 < depth) { Nd n2; n2.h = nd.h; n2.h.push_back(o); n2.M = M; q.push_back(n2); } } } }
}
// many vectors and fields at once: every sequence of whole blocks of operations
static void blocks(WF const& f, Alpha const& A, int depth) {
  World w; w.m = f.make(); if (w.m->num_tiles()) w.t = w.m->tiles()[0];
  char const* BN[] = {"add every vector", "write every vector", "every field appears", "export", "import", "new state"};
  long tot = 1; for (int i = 0; i < depth; i++) tot *= 6; std::set<Model> seen;
  for (long h = 0; h < tot; h++) { w.s = Jali::State::create(w.m); w.m->fields.clear(); Model M; std::string cx; long y = h; bool on = true;
    for (int d = 0; d < depth && on; d++) { int b = y % 6; y /= 6; cx += std::string(BN[b]) + "; "; vk::set_current(cx); int n = b < 2 ? A.v.size() : b == 2 ? A.f.size() : 1;
      for (int i = 0; i < n && on; i++) { int j = d % 2 ? n - 1 - i : i; bool ok = step(w, M, {b, j}, A, true); if (!ok && b > 2) on = false; vk::transitions(); }
      if (!on) break; if (d == depth - 1 || y == 0) examine(w, M); if (vk::failed()) return; if (seen.insert(M).second) vk::states(); }
    vk::traces(); vk::beat(); }
}
VK_CHECK("C22", "model_checking", "breadth-first search over pairs (contents of the state, fields held by the mesh) under adding and writing vectors, fields appearing on the mesh (every type, kind, and unreadable ones), export, import and starting a new state; every transition is replayed from its whole history on a real State on a reference mesh that stores fields like the external framework, and all vectors, values, fields and store requests are compared; and every sequence of four (thorough: five) whole blocks of such operations with 40 vectors and 40 fields on meshes of up to 60 cells, with 43 names that are easily taken for one another, and with 300 fields and vectors; a case is a mesh, alphabet and depth") {
  std::vector<WF> fs; auto mkf = [&](std::string n, Desc d, Opt o, bool all) { WF f; f.name = n; f.make = [=] { Req q = all ? Req::all() : Req(); q.tiles = 2; q.tghost = 0; return make(elaborate(d, o), q); }; fs.push_back(f); };
  { Opt o; mkf("chain", chain({0, 1, 2, 4}), o, true); mkf("quads2x1", quads(2, 1), o, true); mkf("hexes2x1x1", hexes(2, 1, 1), o, true); mkf("bent surface", familysurf()[0], o, true); }
  { Opt o; o.ghost = {0, 1}; o.bghost = true; mkf("quads2x1 ghost", quads(2, 1), o, true); mkf("tet2 ghost", family3d()[1], o, true); mkf("bent surface ghost", familysurf()[0], o, true); }
  auto V = [](std::string n, int dom, Entity_kind k, Entity_type t, int T, bool multi) { Vec x; x.name = n; x.dom = dom; x.kind = k; x.type = t; x.T = T; x.multi = multi; return x; };
  auto F = [](std::string n, Entity_kind k, std::string t, int w, bool bad) { Fld f; f.name = n; f.kind = (int)k; f.type = t; f.width = w; f.bad = bad; return f; };
  Entity_kind const K[] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::WEDGE}; Entity_type const AL = Entity_type::ALL, OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST;
  for (auto& f : fs) {
    auto go = [&](std::string nm, Alpha A, std::vector<int> whats, int D) { std::vector<Op> ops; for (int wh : whats) { int n = wh < 2 ? A.v.size() : wh == 2 ? A.f.size() : 1; for (int i = 0; i < n; i++) ops.push_back({wh, i}); } vk::run(f.name + ", " + nm + " depth " + std::to_string(D), [=] { explore(f, A, ops, D); }); };
    int x = vk::thorough ? 1 : 0;
    { Alpha A; for (auto k : K) for (int T = 0; T < 7; T++) A.v.push_back(V("a", 0, k, AL, T, false)); A.v.push_back(V("b", 0, K[0], AL, 1, true)); A.v.push_back(V("", 0, K[0], AL, 1, false)); go("one vector of every kind and type", A, {0, 3, 4, 5}, 3); }
    { Alpha A; for (auto k : {K[0], K[1], K[3]}) for (auto t : {AL, OW, GH}) for (int d = 0; d < 2; d++) for (int T : {0, 1, 3}) A.v.push_back(V("a", d, k, t, T, false)); go("parts of the mesh, tiles", A, {0, 3, 4}, 3 + x); }
    { Alpha A; A.v = {V("a", 0, K[0], AL, 1, false), V("a", 0, K[1], AL, 1, false), V("b", 0, K[0], AL, 3, false), V("b", 0, K[0], AL, 0, false), V("m", 0, K[0], AL, 1, true), V("a", 1, K[0], AL, 1, false), V("c", 0, K[0], OW, 1, false)}; go("histories", A, {0, 1, 3, 4, 5}, 6 + x); }
    { Alpha A; A.v = {V("a", 0, K[0], AL, 1, false), V("b", 0, K[1], AL, 2, false), V("c", 0, K[2], AL, 0, false)}; go("long histories", A, {0, 1, 3, 4, 5}, 6 + x); }
    { Alpha A; for (auto k : {K[0], K[1], K[2], K[3]}) for (int b = 0; b < 2; b++) { for (auto t : {std::make_pair("INT", 1), std::make_pair("DOUBLE", 1), std::make_pair("VECTOR", 2), std::make_pair("VECTOR", 3), std::make_pair("TENSOR", 3), std::make_pair("TENSOR", 6), std::make_pair("TENSOR", 9), std::make_pair("POINTER", 1), std::make_pair("UNKNOWN_VARTYPE", 1)}) A.f.push_back(F(std::string("a") + KNM((int)k), k, t.first, t.second, b)); }
      go("one field of every kind and type", A, {2, 4, 3, 5}, 3); }
    { Alpha A; A.f = {F("a", K[0], "DOUBLE", 1, false), F("b", K[0], "INT", 1, false), F("c", K[0], "VECTOR", 0 + (f.name == "chain" ? 1 : f.make()->R.sd), false), F("d", K[1], "DOUBLE", 1, false), F("a", K[1], "INT", 1, false), F("e", K[0], "POINTER", 1, false), F("g", K[2], "TENSOR", f.name.substr(0, 5) == "quads" ? 3 : 6, false), F("h", K[0], "DOUBLE", 1, true)};
      A.v = {V("a", 0, K[0], AL, 1, false), V("z", 0, K[0], AL, 1, false)}; go("several fields", A, {2, 4, 0, 3}, 4 + x); }
  }
  std::vector<Desc> bd = {chain({0, 1, 2, 4, 5, 7, 8, 9.5, 11, 12, 14, 15, 16})}; for (auto& d : allbig()) if (d.name == "quads7x6" || d.name == "hexes5x4x3" || d.name == "bent7x6" || d.name == "wheel12" || d.name == "bipyr10") bd.push_back(d);
  for (auto& d : bd) for (int gh = 0; gh < (d.md > 1 ? 2 : 1); gh++) { Opt o; if (gh) { o.ghost.assign(d.cells.size(), 0); for (size_t i = 1; i < d.cells.size(); i += 2) o.ghost[i] = 1; o.bghost = d.md == d.sd; } Ref r = elaborate(d, o);
    WF f; f.name = "large " + r.name; f.make = [r] { Req q; q.tiles = 2; q.tghost = 0; return make(r, q); };
    Alpha A; int sd = r.sd; for (int i = 0; i < 40; i++) { std::string nm = std::string(1, 'a' + i % 26) + std::to_string(i); Entity_kind k = K[i % 3]; A.v.push_back(V(nm, i % 7 == 6, k, i % 5 == 4 ? OW : i % 11 == 10 ? GH : AL, i % 6, false)); if (i % 9 == 8) A.v.back() = V(nm, 0, Entity_kind::CELL, AL, 1, true);
      std::string fn = i % 4 ? "f" + std::to_string(i) : nm; int c = i % 5; A.f.push_back(c == 0 ? F(fn, k, "DOUBLE", 1, false) : c == 1 ? F(fn, k, "INT", 1, false) : c == 2 && sd > 1 ? F(fn, k, "VECTOR", sd, false) : c == 3 && sd > 1 ? F(fn, k, "TENSOR", sd == 2 ? 3 : 6, false) : F(fn, k, "DOUBLE", 1, i % 2)); }
    vk::run(f.name + ", forty vectors and fields", [=] { blocks(f, A, vk::thorough ? 5 : 4); }); }
  // names that are easily taken for one another, and hundreds of fields
  for (auto& f : fs) if (f.name == "quads2x1 ghost" || f.name == "chain" || f.name == "hexes2x1x1") for (int par = 0; par < 3; par++) { Alpha A; auto nm = vk::names(); if (par == 2) { nm.clear(); for (int i = 0; i < (vk::thorough ? 700 : 300); i++) nm.push_back("q" + std::to_string(i)); }
    for (int i = 0; i < (int)nm.size(); i++) { Entity_kind k = K[i / 2 % 3]; if ((i + par) % 2) A.v.push_back(V(nm[i], 0, k, AL, i / 3 % 2, false)); else A.f.push_back(F(nm[i], k, i / 3 % 2 ? "DOUBLE" : "INT", 1, false)); }
    vk::run(f.name + (par == 2 ? ", hundreds of fields" : ", like names " + std::to_string(par)), [=] { blocks(f, A, par == 2 ? 3 : 4); }); }
}
