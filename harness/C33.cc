// C33: printing a state or a state vector shows every vector with its name,
// kind, number of values and values, in order, and changes nothing
#include "tiles.hh"
#include "JaliState.h"
#include <iomanip>
using namespace ref;
static Entity_kind const N = Entity_kind::NODE, E = Entity_kind::EDGE, F = Entity_kind::FACE, C = Entity_kind::CELL;
typedef std::array<double, 3> A3; typedef std::vector<std::string> VS;
static VS toks(std::string const& s) { std::istringstream i(s); VS v; std::string t; while (i >> t) v.push_back(t); return v; }
// what the model knows of a vector: values as sequences of printable things
struct Val { int how; double d; long i; std::string s; };
struct MV { std::string name; Entity_kind kind; bool uni; int id, op; std::vector<std::vector<Val>> v; };
static Val D(double d) { return {0, d, 0, ""}; }
static Val I(long i) { return {1, 0, i, ""}; }
static Val S(std::string s) { return {2, 0, 0, s}; }
// stream settings: a stream prints as its owner set it
static void setup(std::ostream& o, int style) { if (style == 1) o.precision(17); if (style == 2) o << std::fixed << std::setprecision(3); if (style == 3) o << std::scientific; }
static std::string text(Val const& v, int style) { std::ostringstream o; setup(o, style); if (v.how == 0) o << v.d; else if (v.how == 1) o << v.i; else o << v.s; return o.str(); }
static std::string kindname(Entity_kind k) { std::ostringstream o; o << k; return o.str(); }
// check that, from token pos on, the output shows the vector; returns the position after it
static size_t shown(VS const& t, size_t pos, MV const& m, int style, std::string const& cx) {
  while (pos < t.size() && t[pos].find(m.name) == std::string::npos) pos++;
  if (!vk::ok(pos < t.size(), "name of a vector not printed in its place", cx + " " + m.name)) return t.size();
  pos++; VS want; for (auto& e : m.v) for (auto& x : e) for (auto& w : toks(text(x, style))) want.push_back(w);
  VS kn = toks(kindname(m.kind)); auto ik = std::search(t.begin() + pos, t.end(), kn.begin(), kn.end());
  if (!vk::ok(ik != t.end(), "kind of a vector not printed", cx + " " + m.name)) return t.size();
  pos = ik - t.begin() + kn.size(); std::string n = std::to_string(m.v.size()); auto in = std::find(t.begin() + pos, t.end(), n);
  if (!vk::ok(in != t.end(), "number of values not printed", cx + " " + m.name)) return t.size();
  pos = in - t.begin() + 1; size_t stop = pos; while (stop < t.size() && t[stop].find("vec_") == std::string::npos) stop++;
  // the values in order, followed by nothing that belongs to this vector
  auto iv = std::search(t.begin() + pos, t.begin() + stop, want.begin(), want.end()); std::string got; for (size_t i = pos; i < stop; i++) got += t[i] + " "; std::string ws; for (auto& w : want) ws += w + " ";
  vk::ok(want.empty() || iv != t.begin() + stop, "values of a vector not printed", cx + " " + m.name + ": wanted " + ws + "printed " + got);
  for (auto i = t.begin() + pos; i < iv && !want.empty(); i++) vk::ok(!isdigit((*i)[0]) && (*i)[0] != '-', "another value printed before the values of a vector", cx + " " + m.name + ": " + got);
  if (want.empty()) iv = t.begin() + pos;
  pos = iv - t.begin() + want.size(); for (size_t i = pos; i < stop; i++) if (i >= stop || !(isdigit(t[i][0]) || t[i][0] == '-')) continue; else vk::fail("more values printed than the vector has", cx + " " + m.name + ": " + got);
  return pos;
}
typedef std::shared_ptr<Jali::State> StP;
struct W { std::shared_ptr<RefMesh> m; StP s; std::vector<MV> v; std::map<int, Jali::UniStateVector<double>*> ud; std::map<int, Jali::UniStateVector<int>*> ui; std::map<int, Jali::UniStateVector<A3>*> ua; std::map<int, Jali::UniStateVector<double, Jali::MeshTile>*> ut; };
static W world(int cfg) {
  W w; if (cfg < 2) { Opt o; if (cfg) { o.ghost = {0, 0, 0, 1, 0, 1}; o.bghost = true; } Req q = Req::all(); q.tiles = 2; q.tghost = 1; w.m = make(elaborate(quads(3, 2), o), q); } else { Req q = Req::all(); q.tiles = 2; w.m = make(elaborate(hexes(2, 1, 1), Opt()), q); }
  w.s = Jali::State::create(w.m); w.s->add_material("mat0", VI{0, 1}); return w; }
enum { ADDD, ADDI, ADDA, ADDT, ADDS, ADDM, COPY, WRITE, GROW, CLEAR, MATS, NOPS };
static char const* opn[] = {"add double", "add int", "add array", "add on tile", "add text", "add multi", "copy last", "write", "grow", "clear", "add material"};
static double const DV[] = {0, 1.5, -2.25, 1e300, 0.1, -1e-300, 123456789, 1.0 / 3};
static bool same = false;   // all vectors have one name (and differ in kind, type, domain or element type)
static bool step(W& w, int op) {
  int k = w.v.size(); std::string nm = "vec_" + std::string(1, 'A' + (same ? 0 : k)) + "_"; MV x; x.name = nm; x.uni = true; x.id = k; x.op = op;
  if (same && op <= ADDM) for (auto& y : w.v) if (y.op == op && (op >= ADDS || (y.id - k) % 2 == 0)) return false;   // would be the same vector again
  switch (op) {
    case ADDD: { x.kind = k % 2 ? N : C; auto ty = k % 3 == 1 ? Entity_type::PARALLEL_OWNED : k % 3 == 2 ? Entity_type::PARALLEL_GHOST : Entity_type::ALL; int n = w.m->num_entities(x.kind, ty); std::vector<double> d(n + 1); for (int i = 0; i < n; i++) { d[i] = DV[(i + k) % 8]; x.v.push_back({D(d[i])}); } auto& r = w.s->add<double, Jali::Mesh>(nm, w.m, x.kind, ty, (double const*)d.data()); w.ud[k] = &r; break; }
    case ADDI: { x.kind = k % 2 ? F : N; int n = w.m->num_entities(x.kind, Entity_type::ALL); std::vector<int> d(n); for (int i = 0; i < n; i++) { d[i] = i * i - 3 * k; x.v.push_back({I(d[i])}); } auto& r = w.s->add<int, Jali::Mesh>(nm, w.m, x.kind, Entity_type::ALL, (int const*)d.data()); w.ui[k] = &r; break; }
    case ADDA: { x.kind = k % 2 ? C : E; int n = w.m->num_entities(x.kind, Entity_type::PARALLEL_OWNED); std::vector<A3> d(n); for (int i = 0; i < n; i++) { d[i] = A3{{i + .5, -1. * k, DV[i % 8]}}; x.v.push_back({D(d[i][0]), D(d[i][1]), D(d[i][2])}); } auto& r = w.s->add<A3, Jali::Mesh>(nm, w.m, x.kind, Entity_type::PARALLEL_OWNED, (A3 const*)d.data()); w.ua[k] = &r; break; }
    case ADDT: { x.kind = k % 2 ? C : Entity_kind::CORNER; auto t = w.m->tiles()[k % 2]; int n = t->num_entities(x.kind, Entity_type::ALL); std::vector<double> d(n); for (int i = 0; i < n; i++) { d[i] = 100 * k + i; x.v.push_back({D(d[i])}); } auto& r = w.s->add<double, Jali::MeshTile>(nm, t, x.kind, Entity_type::ALL, (double const*)d.data()); w.ut[k] = &r; break; }
    case ADDS: { x.kind = C; int n = w.m->num_entities(C, Entity_type::ALL); std::vector<std::string> d(n); for (int i = 0; i < n; i++) { d[i] = "text number" + std::string(i, 'x') + " e"; x.v.push_back({S(d[i])}); } w.s->add<std::string, Jali::Mesh>(nm, w.m, C, Entity_type::ALL, (std::string const*)d.data()); break; }
    case ADDM: { x.kind = C; x.uni = false; w.s->add<double, Jali::Mesh, Jali::MultiStateVector>(nm, w.m, C, Entity_type::ALL); break; }
    case COPY: { if (w.ud.empty()) return false; auto it = --w.ud.end(); 
      StP s2 = Jali::State::create(w.m); s2->add(*it->second);  // a copy with its name, in a second state
      std::ostringstream o; o << *s2; MV y = w.v[it->first]; shown(toks(o.str()), 0, y, 0, "copy in another state"); return true; }
    case WRITE: { bool any = false; for (auto& p : w.ud) if (p.second->size()) { auto& b = w.v[p.first].v; (*p.second)[0] = -7.5; b[0][0] = D(-7.5); p.second->get_raw_data()[b.size() - 1] = 64; b.back()[0] = D(64); any = true; } for (auto& p : w.ui) { (*p.second)[1] = 99; w.v[p.first].v[1][0] = I(99); any = true; } for (auto& p : w.ua) { (*p.second)[0][1] = 8.5; w.v[p.first].v[0][1] = D(8.5); any = true; } for (auto& p : w.ut) { if (!p.second->size()) continue; *(p.second->begin()) = 31; w.v[p.first].v[0][0] = D(31); any = true; } return any; }
    case GROW: { if (w.ud.empty()) return false; auto it = w.ud.begin(); it->second->resize(it->second->size() + 2, 0.75); for (int i = 0; i < 2; i++) w.v[it->first].v.push_back({D(0.75)}); return true; }
    case CLEAR: { if (w.ud.empty()) return false; auto it = --w.ud.end(); it->second->clear(); w.v[it->first].v.clear(); return true; }
    case MATS: { int n = w.s->num_materials(); w.s->add_material("mat" + std::to_string(n), VI{n % 2}); return n < 4; }
  }
  w.v.push_back(x); return true;
}
static void examine(W& w, std::string const& cx) {
  for (int style = 0; style < 4; style++) { std::ostringstream o; setup(o, style); auto fl = o.flags(); auto pr = o.precision(); Jali::State const& cs = *w.s; std::ostream& back = (o << cs); vk::ok(&back == &o, "printing returns another stream", cx); vk::ok(o.good() && o.flags() == fl && o.precision() == pr, "printing changes the stream", cx);
    VS t = toks(o.str()); size_t pos = 0; for (auto& m : w.v) if (m.uni) pos = shown(t, pos, m, style, cx);
    for (auto& m : w.v) if (m.uni) { int n = 0, want = 0; for (auto& x : t) n += x.find(m.name) != std::string::npos; for (auto& x : w.v) want += x.uni && x.name == m.name; vk::eq(n, want, "number of times a vector is printed", cx + " " + m.name); }
    if (w.v.empty()) for (auto& x : t) vk::ok(x.find("vec_") == std::string::npos, "vectors printed for an empty state", cx);
    std::ostringstream o2; setup(o2, style); o2 << *w.s; vk::ok(o2.str() == o.str(), "printing a second time gives another result", cx); vk::states(); }
  // one vector at a time, through its own type and through its base class
  for (auto& m : w.v) if (m.uni) for (int way = 0; way < 2; way++) { std::ostringstream o; if (way) { auto p = (*w.s)[m.id]; std::ostream& b = p->print(o); vk::ok(&b == &o, "printing returns another stream", cx); } else if (w.ud.count(m.id)) o << *w.ud[m.id]; else if (w.ui.count(m.id)) o << *w.ui[m.id]; else if (w.ua.count(m.id)) o << *w.ua[m.id]; else if (w.ut.count(m.id)) o << *w.ut[m.id]; else continue;
    VS t = toks(o.str()); shown(t, 0, m, 0, cx + " alone"); for (auto& x : w.v) if (x.name != m.name) for (auto& y : t) vk::ok(y.find(x.name) == std::string::npos, "another vector printed", cx + " " + m.name); }
}
VK_CHECK("C33", "model_checking", "depth-first search over all histories, up to 4 (thorough 6) operations, of adding vectors of four element types (double, int, array, text) on the mesh and its tiles for every parallel type, adding multi-material vectors and materials, copying, writing, growing and clearing; after every history the whole state is printed under four stream settings and every vector on its own in two ways, and the output is parsed and compared with the values in the model; also vectors of 0 to 400 (thorough 5000) values; a case is a mesh and a first operation") {
  for (int cfg = 0; cfg < 3; cfg++) for (int sn = 0; sn < 2; sn++) for (int first = 0; first < NOPS; first++) vk::run("world " + std::to_string(cfg) + (sn ? " one name " : " ") + opn[first], [=] { same = sn;
    int depth = vk::thorough ? 6 : 4; VI h(1, first);
    // all extensions of the history, each replayed from the start
    std::function<void()> go = [&] { W w = world(cfg); if (h.size() == 1) examine(w, "empty"); std::string cx; bool en = true; for (int op : h) { cx += std::string(opn[op]) + "; "; en = step(w, op); if (!en) return; } vk::set_current(cx); vk::transitions(); vk::traces(); examine(w, ""); vk::beat(); if (vk::failed() || (int)h.size() >= depth) return;
      for (int op = 0; op < NOPS && !vk::failed(); op++) { h.push_back(op); go(); h.pop_back(); } };
    go(); });
  vk::run("sizes", [=] { W w = world(0); std::vector<MV> m; for (int n = 0; n <= (vk::thorough ? 5000 : 400); n += n < 40 ? 1 : n / 7) { Jali::UniStateVector<double> v("vec_Z_", w.m, w.s, C, Entity_type::ALL); v.clear(); v.resize(n); MV x; x.name = "vec_Z_"; x.kind = C; x.uni = true; x.id = 0; for (int i = 0; i < n; i++) { v[i] = i % 97 ? i * 0.5 : -i; x.v.push_back({D(v[i])}); } std::ostringstream o; o << v; shown(toks(o.str()), 0, x, 0, std::to_string(n) + " values"); vk::states(); vk::traces(); vk::beat(); } });
}
