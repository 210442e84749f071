// C35: nothing is read or written outside of live objects, and nothing that was
// never written is used.  The explorations of the other checks are run again
// with every access watched (see check.py, PROGRAMS); this program adds the
// ends of the objects: every order in which handles can be dropped.
#include "alphabet.hh"
#include "JaliState.h"
#include "MeshFactory.hh"
#include "BoxRegion.hh"
typedef Jali::UniStateVector<double, Jali::Mesh> UD; typedef Jali::MultiStateVector<double, Jali::Mesh> MD; typedef Jali::UniStateVector<int, Jali::MeshTile> UT;
namespace {
struct H { MeshP m; TileP t; std::shared_ptr<Jali::MeshSet> s, u; std::shared_ptr<Jali::State> st; std::shared_ptr<UD> v; std::shared_ptr<MD> mm; std::shared_ptr<UT> vt; UD c; bool held = true;
  std::shared_ptr<JaliGeometry::BoxRegion> r; std::shared_ptr<JaliGeometry::GeometricModel> g; };
enum { MESH, TILE, SET, STATE, VEC, MULTI, TVEC, N };
double look(H& h) { double x = 0;   // what is still held is asked for what it holds itself
  if (h.v) { for (double y : *h.v) x += y; x += h.v->name().size(); } if (h.held) for (double y : h.c) x += y;
  if (h.mm) for (size_t k = 0; k < h.mm->size(); k++) for (double y : h.mm->get_matdata(k)) x += y;
  if (h.vt) for (int y : *h.vt) x += y;
  if (h.s) { for (int e : h.s->entities<Entity_type::ALL>()) x += e; x += h.s->name().size(); } if (h.u) x += h.u->entities<Entity_type::PARALLEL_OWNED>().size();
  if (h.st) { x += h.st->size() + h.st->num_materials(); for (auto i = h.st->begin(); i != h.st->end(); ++i) x += (*i)->name().size() + (*i)->size(); for (int k = 0; k < h.st->num_materials(); k++) for (int c : h.st->material_cells(k)) x += c; }
  if (h.t) { x += h.t->ID(); for (int c : h.t->cells()) x += c; for (int n : h.t->nodes()) x += n; }
  if (h.m) { for (int c : h.m->cells()) x += h.m->cell_volume(c); for (auto& s : h.m->sets()) x += s->entities<Entity_type::ALL>().size(); for (auto& t : h.m->tiles()) x += t->cells().size(); }
  return x; }
void drop(H& h, int k) { switch (k) { case MESH: h.m.reset(); break; case TILE: h.t.reset(); break; case SET: h.s.reset(); h.u.reset(); break; case STATE: h.st.reset(); break; case VEC: h.v.reset(); h.c = UD(); h.held = false; break; case MULTI: h.mm.reset(); break; case TVEC: h.vt.reset(); break; } }
void fill(H& h, std::function<MeshP(JaliGeometry::GeometricModelPtr)> mk, int sd) {
  Point a(sd), b(sd); for (int i = 0; i < sd; i++) { a[i] = -1; b[i] = 1.5; }
  h.r = std::make_shared<JaliGeometry::BoxRegion>("box", 1, a, b); if (sd > 1) { h.g = std::make_shared<JaliGeometry::GeometricModel>(sd); h.g->Add_Region(h.r.get()); }
  h.m = mk(h.g.get()); h.t = h.m->tiles()[0]; h.s = Jali::make_meshset("s", *h.m, Entity_kind::CELL, VI{0}, VI(), true); h.u = Jali::complement({h.s}, false);
  h.st = Jali::State::create(h.m); h.st->add_material("a", VI{0}); h.st->add_material("b", VI{0, 1}); auto AL = Entity_type::ALL; auto CE = Entity_kind::CELL;
  auto& v = h.st->add<double, Jali::Mesh, Jali::UniStateVector>("v", h.m, CE, AL, 2.5); h.c = v; h.st->get("v", h.m, CE, AL, &h.v); h.st->add<double, Jali::Mesh, Jali::MultiStateVector>("m", h.m, CE, AL, 1.5); h.st->get("m", h.m, CE, AL, &h.mm);
  h.st->add<int, Jali::MeshTile, Jali::UniStateVector>("t", h.t, CE, AL, 3); h.st->get("t", h.t, CE, AL, &h.vt); }
// ---- histories in which objects are given parts of themselves
int const NOP = 22;
void op(H& h, int k) { auto& s = *h.s; auto& st = *h.st; int nm = st.num_materials(); auto set = [&](std::shared_ptr<Jali::MeshSet> p) { if (p) h.u = p; };
  switch (k) {
    case 0: s.add_entities(s.entities<Entity_type::ALL>()); break; case 1: s.rem_entities(s.entities<Entity_type::ALL>()); break; case 2: s.rem_entities(s.entities<Entity_type::PARALLEL_OWNED>()); break;
    case 3: if (s.entities<Entity_type::ALL>().size()) s.rem_entity(s.entities<Entity_type::ALL>()[0]); break; case 4: s.add_entity(1); break; case 5: s.add_entities(h.u->entities<Entity_type::ALL>()); break; case 6: s.add_entities(h.m->cells()); break;
    case 7: set(Jali::merge({h.s, h.s}, true)); break; case 8: set(Jali::subtract(h.s, {h.s}, true)); break; case 9: set(Jali::intersect({h.u, h.s, h.u}, true)); break; case 10: set(Jali::complement({h.s, h.u}, true)); break;
    case 11: if (nm < 5) st.add_material("n" + std::to_string(nm), nm ? st.material_cells(0) : VI{0, 1}); break; case 12: if (nm) st.add_cells_to_material(0, st.material_cells(0)); break; case 13: if (nm > 1) st.add_cells_to_material(nm - 1, st.material_cells(0)); break;
    case 14: if (nm) st.rem_material(0); break; case 15: if (nm) st.rem_material_by_name(st.material_name(nm - 1)); break; case 16: h.mm->assign(4.); break;
    case 17: { auto x = *h.v; x = x; *h.v = x; h.c = *h.v; break; } case 18: { auto x = *h.mm; x = x; *h.mm = x; break; } case 19: { UD v; st.get("v", h.m, Entity_kind::CELL, Entity_type::ALL, &v); st.add(v); break; }
    case 20: { st.add<double, Jali::Mesh, Jali::UniStateVector>("w", h.m, Entity_kind::NODE, Entity_type::ALL, h.v->size() ? (*h.v)[0] : 1.); break; }
    case 21: { std::ostringstream o; o << *h.v << *h.vt; break; } } }
}
VK_CHECK("C35", "exploration", "the explorations of C34 and C29 (questions and changes in every order; errors and messages; in the thorough tier also those of C14 to C21: set edits, set algebra, sets from regions, the registry, state vectors, materials) executed with every memory access and every arithmetic operation watched (AddressSanitizer, UndefinedBehaviorSanitizer, checked containers; fresh and freed memory and new local variables filled with recognisable values); and every order of letting go of the handles to a mesh, its tile, sets, a state, its vectors on mesh and tile and multi-material vectors, on 4 meshes, with everything still held and standing on its own asked in between; and all histories of length 3 (thorough: 4) over 22 operations in which sets, materials and vectors are given their own lists and themselves; each case is an evaluation, none is trivial; an access outside of live objects ends the process and is reported with its history") {
  Exceptions::set_exception_behavior_raise();
  struct M { std::string n; int sd; std::function<MeshP(JaliGeometry::GeometricModelPtr)> mk; }; std::vector<M> ms; Req q = Req::all(); q.tiles = 2; q.tghost = 1;
  for (int sd : {1, 2, 3}) { Ref r = elaborate(sd == 1 ? chain({0, 1, 2, 3}) : sd == 2 ? quads(3, 1) : [] { for (auto& d : family3d()) if (d.name == "hexes2x1x1") return d; return family3d()[0]; }(), Opt()); Req p = q; if (sd == 1) { p = Req(); p.tiles = 2; } ms.push_back({r.name.empty() ? "mesh " + std::to_string(sd) + "D" : r.name, sd, [r, p](JaliGeometry::GeometricModelPtr) { return std::static_pointer_cast<Jali::Mesh>(make(r, p)); }}); }
  ms.push_back({"simple", 3, [](JaliGeometry::GeometricModelPtr g) { Jali::MeshFactory f(MPI_COMM_WORLD); f.framework(Jali::Simple); f.num_tiles(2); f.num_ghost_layers_tile(1); f.partitioner(Jali::Partitioner_type::INDEX); f.geometric_model(g); f.included_entities({Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER}); return f(0., 0., 0., 1., 1., 1., 2, 2, 1); }});
  for (auto& m : ms) for (int first = 0; first < N; first++) for (int second = 0; second < N; second++) { if (second == first) continue;
    vk::run(m.n + " / dropped first " + std::to_string(first) + "," + std::to_string(second), [=] { VI p(N); for (int i = 0; i < N; i++) p[i] = i;
      do { if (p[0] != first || p[1] != second) continue; H h; fill(h, m.mk, m.sd); vk::set_current("drop in order " + vk::str(p)); look(h); for (int k : p) { drop(h, k); look(h); vk::transitions(); } vk::states(); } while (std::next_permutation(p.begin(), p.end())); }); }
  int D = vk::thorough ? 4 : 3;
  for (auto& m : ms) for (int a = 0; a < NOP; a++) for (int b = 0; b < NOP; b++) vk::run(m.n + " / history " + std::to_string(a) + "," + std::to_string(b), [=] { VI k(D, 0); k[0] = a; k[1] = b;
    for (;;) { H h; fill(h, m.mk, m.sd); vk::set_current("history " + vk::str(k)); for (int i : k) { try { op(h, i); } catch (std::exception const&) {} vk::transitions(); look(h); } vk::states(); vk::traces();
      int i = D - 1; while (i > 1 && ++k[i] == NOP) k[i--] = 0; if (i <= 1) break; } });
}
