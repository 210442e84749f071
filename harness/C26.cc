// C26: geometric models and domains, all add/copy histories up to a depth
// against a list model.
#include "GeometricModel.hh"
#include "Domain.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "LogicalRegion.hh"
#include "errors.hh"
#include "vk.hh"
using namespace JaliGeometry;
typedef std::vector<int> VI;
// alphabet of regions: dimension, id and name, with clashes
static std::vector<RegionPtr> R;
static std::vector<GeometricModelPtr> G;
static std::vector<int> rdim, gdim;
static void setup() {
  R.push_back(new BoxRegion("box3", 1, Point(0., 0., 0.), Point(1., 1., 1.)));
  R.push_back(new BoxRegion("box2", 2, Point(0., 0.), Point(1., 1.)));
  R.push_back(new PlaneRegion("plane", 40, Point(0., 0., 0.), Point(0., 0., 1.)));
  R.push_back(new PointRegion("point", 7, Point(0., 0., 0.)));
  R.push_back(new BoxRegion("box2", 9, Point(0., 0.), Point(2., 1.)));       // name clash
  R.push_back(new LogicalRegion("logic", 2, Bool_type::UNION, {"box3"}));    // id clash
  for (auto r : R) rdim.push_back(r->dimension());
  for (int d : {2, 3, 3}) { G.push_back(new GeometricModel(d)); gdim.push_back(d); }
}
static void look(GeometricModel const& m, int dim, VI const& s, std::string const& cx) {
  vk::eq((int)m.dimension(), dim, "dimension of model", cx);
  if (!vk::eq(m.Num_Regions(), (int)s.size(), "number of regions", cx)) return;
  for (size_t i = 0; i < s.size(); i++) vk::ok(m.Region_i(i) == R[s[i]], "region by index", cx + " #" + std::to_string(i));
  auto has = [&](RegionPtr r) { for (int k : s) if (R[k] == r) return true; return false; };
  for (std::string n : {"box3", "box2", "plane", "point", "logic", "", "box"}) {
    bool any = false; for (int k : s) if (R[k]->name() == n) any = true;
    RegionPtr r = m.FindRegion(n);
    if (any) vk::ok(r && r->name() == n && has(r), "region by name not found", cx + " " + n); else vk::ok(r == NULL, "unknown name found", cx + " " + n);
  }
  for (int id : {0, 1, 2, 3, 7, 9, 40, 41}) {
    bool any = false; for (int k : s) if ((int)R[k]->id() == id) any = true;
    RegionPtr r = m.FindRegion(id);
    if (any) vk::ok(r && (int)r->id() == id && has(r), "region by id not found", cx + " " + std::to_string(id)); else vk::ok(r == NULL, "unknown id found", cx + " " + std::to_string(id));
  }
}
struct DS { VI g, f; };
static void lookd(Domain const& d, int dim, DS const& s, std::string const& cx) {
  vk::eq((int)d.spatial_dimension(), dim, "dimension of domain", cx);
  if (vk::eq(d.Num_Geometric_Models(), (int)s.g.size(), "number of models", cx)) for (size_t i = 0; i < s.g.size(); i++) vk::ok(d.Geometric_Model_i(i) == G[s.g[i]], "model by index", cx);
  if (vk::eq(d.Num_Free_Regions(), (int)s.f.size(), "number of free regions", cx)) for (size_t i = 0; i < s.f.size(); i++) vk::ok(d.Free_Region_i(i) == R[s.f[i]], "free region by index", cx);
}
template <class F> static bool refused(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
VK_CHECK("C26", "model_checking", "model: the list of regions (and models) added; every history of adds (6 regions with clashing names and ids and all dimensions, 3 models) and copies up to the depth, replayed on the real classes for dimensions 2 and 3, every query after every step; lists of every length up to 40 and around powers of two up to 513; 43 names and 18 ids that are easily taken for one another; one question asked of a model and of its replacement at the same address; a case is a start and first operation, or a length") {
  setup(); int depth = vk::thorough ? 6 : 4;
  Exceptions::set_exception_behavior_raise();
  for (int dim : {2, 3}) for (int first = 0; first <= (int)R.size(); first++) vk::run("model" + std::to_string(dim) + " first " + std::to_string(first), [=] {
    std::set<VI> seen; VI h;
    std::function<void(std::shared_ptr<GeometricModel>, VI)> go = [&](std::shared_ptr<GeometricModel> m, VI s) {
      if (seen.insert(s).second) { vk::states();
        // list construction is the same
        std::vector<RegionPtr> l; for (int k : s) l.push_back(R[k]); GeometricModel q(dim, l); look(q, dim, s, "from list " + vk::str(s)); }
      if ((int)h.size() == depth) return;
      for (int op = 0; op <= (int)R.size(); op++) {
        if (h.empty() && op != first) continue;
        auto n = std::make_shared<GeometricModel>(dim); for (int k : s) n->Add_Region(R[k]);   // replay
        VI t = s; h.push_back(op); vk::transitions(); vk::traces();
        std::string cx = "history " + vk::str(h);
        if (op == (int)R.size()) { auto c = std::make_shared<GeometricModel>(*n); n->Add_Region(R[3]); VI s2 = s; s2.push_back(3); look(*n, dim, s2, cx + " original after copy"); n = c; }
        else { bool fit = rdim[op] <= dim; bool thrown = refused([&] { n->Add_Region(R[op]); }); if (fit) t.push_back(op); vk::eq(thrown, !fit, "refusal of region", cx); }
        look(*n, dim, t, cx);
        for (size_t i = 0; i < R.size(); i++) vk::ok((int)R[i]->dimension() == rdim[i], "region changed", cx);
        if (!vk::failed()) go(n, t);
        h.pop_back();
      }
    };
    go(std::make_shared<GeometricModel>(dim), VI());
  });
  for (int dim : {2, 3}) for (int first = 0; first < 10; first++) vk::run("domain" + std::to_string(dim) + " first " + std::to_string(first), [=] {
    VI h; std::set<std::pair<VI, VI>> seen; int dd = depth - 1;
    std::function<void(DS)> go = [&](DS s) {
      if (seen.insert(std::make_pair(s.g, s.f)).second) { vk::states();
        std::vector<GeometricModelPtr> gl; std::vector<RegionPtr> rl; for (int k : s.g) gl.push_back(G[k]); for (int k : s.f) rl.push_back(R[k]);
        std::unique_ptr<Domain> q; bool thrown = refused([&] { q.reset(new Domain(dim, gl, rl)); });
        vk::ok(!thrown, "domain from lists refused", vk::str(s.g) + vk::str(s.f)); if (q) lookd(*q, dim, s, "from lists"); }
      if ((int)h.size() == dd) return;
      for (int op = 0; op < 10; op++) {
        if (h.empty() && op != first) continue;
        std::unique_ptr<Domain> d(new Domain(dim)); for (int k : s.g) d->Add_Geometric_Model(G[k]); for (int k : s.f) d->Add_Free_Region(R[k]);
        DS t = s; h.push_back(op); vk::transitions(); vk::traces(); std::string cx = "history " + vk::str(h);
        if (op < 6) { bool fit = rdim[op] <= dim; bool thrown = refused([&] { d->Add_Free_Region(R[op]); }); if (fit) t.f.push_back(op); vk::eq(thrown, !fit, "refusal of free region", cx); }
        else if (op < 9) { int g = op - 6; bool fit = gdim[g] == dim; bool thrown = refused([&] { d->Add_Geometric_Model(G[g]); }); if (fit) t.g.push_back(g); vk::eq(thrown, !fit, "refusal of model", cx); }
        else { std::unique_ptr<Domain> c(new Domain(*d)); d->Add_Free_Region(R[3]); d = std::move(c); }
        lookd(*d, dim, t, cx);
        if (!vk::failed()) go(t);
        h.pop_back();
      }
    };
    go(DS());
  });
  std::vector<int> lens; for (int n = 1; n <= 40; n++) lens.push_back(n); for (int n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513}) lens.push_back(n);
  // many regions and models: every length up to 40 and around powers of two, names and ids distinct, then a clash
  for (int dim : {2, 3}) for (int n : lens) vk::run("long" + std::to_string(dim) + " " + std::to_string(n), [=] {
    std::vector<std::unique_ptr<Region>> own; std::vector<RegionPtr> l; std::vector<std::unique_ptr<GeometricModel>> gown; std::vector<GeometricModelPtr> gl; GeometricModel m(dim); Domain d(dim);
    for (int i = 0; i < n; i++) { Point a(dim), b(dim); for (int k = 0; k < dim; k++) { a[k] = i; b[k] = i + 1; } own.emplace_back(new BoxRegion("r" + std::to_string(i), 2000 - 2 * i, a, b)); l.push_back(own.back().get()); m.Add_Region(l.back()); d.Add_Free_Region(l.back()); gown.emplace_back(new GeometricModel(dim)); gl.push_back(gown.back().get()); d.Add_Geometric_Model(gl.back()); }
    GeometricModel q(dim, l), c(m), c2(q); Domain e(dim, gl, l), f(d); std::vector<GeometricModel const*> ms = {&m, &q, &c, &c2}; std::vector<Domain const*> ds = {&d, &e, &f};
    for (auto g : ms) { vk::states(); vk::eq(g->Num_Regions(), n, "number of regions"); for (int i = 0; i < n && i < g->Num_Regions(); i++) { vk::ok(g->Region_i(i) == l[i], "region by index"); vk::ok(g->FindRegion("r" + std::to_string(i)) == l[i], "region by name"); vk::ok(g->FindRegion(2000 - 2 * i) == l[i], "region by id"); vk::ok(g->FindRegion(1999 - 2 * i) == NULL, "unknown id found"); } vk::ok(g->FindRegion("r" + std::to_string(n)) == NULL && g->FindRegion("r") == NULL, "unknown name found"); }
    for (auto g : ds) { vk::states(); if (vk::eq(g->Num_Geometric_Models(), n, "number of models")) for (int i = 0; i < n; i++) vk::ok(g->Geometric_Model_i(i) == gl[i], "model by index"); if (vk::eq(g->Num_Free_Regions(), n, "number of free regions")) for (int i = 0; i < n; i++) vk::ok(g->Free_Region_i(i) == l[i], "free region by index"); }
    vk::transitions(3 * n); vk::traces(); });
  for (int par = 0; par < 4; par++) vk::run("like names " + std::to_string(par), [=] { auto nm = vk::names(); std::vector<std::unique_ptr<Region>> own; std::vector<RegionPtr> l; GeometricModel m(2); std::map<std::string, RegionPtr> S;
    for (size_t j = 0; j < nm.size(); j++) { size_t i = par >= 2 ? nm.size() - 1 - j : j; if ((i + par) % 2) continue; own.emplace_back(new BoxRegion(nm[i], i + 1, Point(0., 0.), Point(1., 1. + i))); l.push_back(own.back().get()); m.Add_Region(l.back()); S[nm[i]] = l.back(); vk::transitions(); }
    GeometricModel q(2, l), c(m); vk::states(); vk::traces(); for (auto g : {&m, &q, &c}) for (auto& s : nm) vk::ok(g->FindRegion(s) == (S.count(s) ? S[s] : NULL), S.count(s) ? "region by name" : "unknown name found", "\"" + s + "\""); });
  // ids that agree in part of their bits
  for (int rev = 0; rev < 4; rev++) vk::run("like ids " + std::to_string(rev), [=] { std::vector<unsigned> ids = {0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131073, 1u << 24, (1u << 24) + 1, (1u << 30) + 1, 2147483647u}; if (rev & 1) std::reverse(ids.begin(), ids.end()); std::vector<std::unique_ptr<Region>> own; std::map<unsigned, RegionPtr> S; GeometricModel m(3);
    for (size_t i = 0; i < ids.size(); i++) { if (i % 2 == (size_t)rev / 2) continue; own.emplace_back(new PointRegion("r" + std::to_string(i), ids[i], Point(1., 2., i * 1.))); m.Add_Region(own.back().get()); S[ids[i]] = own.back().get(); vk::transitions(); vk::states(); for (auto k : ids) vk::ok(m.FindRegion((int)k) == (S.count(k) ? S[k] : NULL), S.count(k) ? "region by id" : "unknown id found", std::to_string(k)); } vk::traces(); });
  // one question before and after an add or a copy over, and to another model or domain in the place of one that is gone
  for (int dim : {2, 3}) for (int first = 0; first <= (int)R.size(); first++) vk::run("one question, model" + std::to_string(dim) + " first " + std::to_string(first), [=] {
    std::vector<VI> ls = {{}}; VI fit; for (size_t i = 0; i < R.size(); i++) if (rdim[i] == dim) fit.push_back(i); for (int i : fit) { ls.push_back({i}); for (int j : fit) { if (j != i) ls.push_back({i, j}); } }
    auto nq = 7 + 8 + 2 + 3; std::vector<std::string> nm = {"box3", "box2", "plane", "point", "logic", "", "box"}; VI ids = {0, 1, 2, 3, 7, 9, 40, 41};
    auto askq = [&](GeometricModel const& m, VI const& s, int q, std::string const& cx, bool judge) { RegionPtr r = NULL; int n = 0; if (q < 7) r = m.FindRegion(nm[q]); else if (q < 15) r = m.FindRegion(ids[q - 7]); else if (q == 15) n = m.Num_Regions(); else if (q == 16) n = m.dimension(); else if (q - 17 < (int)s.size()) r = m.Region_i(q - 17);
      if (!judge) return; vk::cmp(); bool good; if (q < 15) { std::set<RegionPtr> may; for (int k : s) if (q < 7 ? R[k]->name() == nm[q] : (int)R[k]->id() == ids[q - 7]) may.insert(R[k]); good = may.size() ? may.count(r) > 0 : r == NULL; } else good = q == 15 ? n == (int)s.size() : q == 16 ? n == dim : q - 17 >= (int)s.size() || r == R[s[q - 17]]; if (!good) vk::fail("answer of a model from before a change or of another model", cx + " question " + std::to_string(q)); };
    alignas(16) static char place[sizeof(GeometricModel)];
    for (auto& A : ls) { if (first < (int)R.size() ? (A.empty() || A[0] != first) : !A.empty()) continue;
      for (int q = 0; q < nq; q++) { for (auto& B : ls) { GeometricModel* m = new (place) GeometricModel(dim); for (int k : A) m->Add_Region(R[k]); askq(*m, A, q, "", false); m->~GeometricModel(); m = new (place) GeometricModel(dim); for (int k : B) m->Add_Region(R[k]); askq(*m, B, q, vk::str(A) + " replaced by " + vk::str(B), true); m->~GeometricModel(); vk::transitions(2); vk::traces();
          GeometricModel x(dim), y(dim); for (int k : A) x.Add_Region(R[k]); for (int k : B) y.Add_Region(R[k]); askq(x, A, q, "", false); askq(y, B, q, vk::str(A) + " asked before " + vk::str(B), true); askq(x, A, q, vk::str(B) + " asked before " + vk::str(A), true); if (vk::failed()) return; }
        for (int k : fit) { GeometricModel x(dim); VI s = A; for (int j : A) x.Add_Region(R[j]); askq(x, s, q, "", false); x.Add_Region(R[k]); s.push_back(k); askq(x, s, q, vk::str(A) + " added " + std::to_string(k), true); x.Add_Region(R[fit[0]]); s.push_back(fit[0]); askq(x, s, q, vk::str(s), true); if (vk::failed()) return; } }
      vk::states(); } });
  for (int dim = 0; dim <= 5; dim++) vk::run("dimension " + std::to_string(dim), [=] {
    bool bad = dim != 2 && dim != 3;
    vk::eq(refused([&] { GeometricModel m(dim); }), bad, "model of unsupported dimension");
    vk::eq(refused([&] { Domain m(dim); }), bad, "domain of unsupported dimension");
    vk::eq(refused([&] { Domain m(dim, {}, {}); }), bad, "domain from lists of unsupported dimension");
  });
}
