// C30: queries are pure: order, repetition and old contents of outputs do not matter
#include "alphabet.hh"
VK_CHECK("C30", "model_checking", "a world is a mesh (generated 1D/3D meshes, reference 2D/3D/surface/1D meshes with ghosts and boundary ghosts) with all supported kinds or few of them requested, two tiles, a geometric model of six regions and its sets; the model of a query is a constant: its answer on a new world that was asked nothing else.  Explored on every world: every query of the full alphabet (all methods x all entities x types x options) with empty, short and long old outputs; for every query x every other query y the history x y x y2 x y3 ... on one world (all ordered pairs adjacent); on new worlds all ordered pairs of an alphabet with a few entities per kind and (thorough) all triples of one query per method; on larger meshes (up to 27 cells, thorough 64) the histories x y x y2 ... with two (four) entities per kind (x: one query per method); every answer compared bit for bit with the model.  One case = one first query on one world") {
  Exceptions::set_exception_behavior_raise();
  std::vector<World> ws; Req all = Req::all(), few, fe, sd_; few = Req(); fe.e = true; sd_ = Req::all(); sd_.c = sd_.w = false;
  ws.push_back(sw(1, 2, 0, 0, all)); ws.push_back(sw(1, 2, 1, 0, all)); ws.push_back(sw(3, 2, 1, 1, few)); if (vk::thorough) { ws.push_back(sw(3, 2, 2, 2, few)); ws.push_back(sw(1, 3, 0, 0, sd_)); }
  std::vector<Desc> ds; for (auto& d : family2d()) if (d.name == "tri2" || d.name == "quads2x1" || (vk::thorough && (d.name == "ell" || d.name == "mixed"))) ds.push_back(d);
  for (auto& d : family3d()) if (d.name == "tet2" || (vk::thorough && (d.name == "pyrhex" || d.name == "hexes2x1x1"))) ds.push_back(d); for (auto& d : familysurf()) if (d.name == "bent" || (vk::thorough && d.name == "mixsurf")) ds.push_back(d); ds.push_back(chain({0, 1, 2.5}));
  for (auto& d : ds) { auto L = labellings(d.cells.size(), false, d.md > 1 && d.md == d.sd); for (size_t i = 0; i < L.size(); i++) { bool gh = !L[i].ghost.empty(); if (gh && d.cells.size() == 2 && L[i].ghost[1] == 0) continue; if (!vk::thorough && i != 0 && i + 1 != L.size() && !(gh && i <= 2)) continue; if (d.md == 1 && gh) continue; L[i].flip = 2;
    Ref r = elaborate(d, L[i]); for (int v = 0; v < 4; v++) { Req q = v == 0 ? all : v == 1 ? few : v == 2 ? fe : sd_; if (d.md == 1 && (v == 0 || v == 3)) continue; if (!vk::thorough && v >= 2) continue; ws.push_back(rw(r, q, " " + rq(q))); } } }
  // larger meshes, asked about three entities per kind
  auto larger = [&](World w) { w.lim = vk::thorough ? 4 : 2; w.name += " larger"; ws.push_back(w); };
  for (auto& d : {quads(5, 4), hexes(3, 3, 3)}) { auto L = labellings(d.cells.size(), false, true); for (size_t i : {(size_t)0, (size_t)1, L.size() - 1}) { if (i > 0 && i + 1 == L.size() && !vk::thorough) continue; Opt o = L[i]; o.flip = 2; Ref r = elaborate(d, o); larger(rw(r, all, " " + rq(all))); if (vk::thorough) { larger(rw(r, few, " " + rq(few))); larger(rw(r, sd_, " " + rq(sd_))); } } }
  larger(sw(3, 4, 3, 2, few)); larger(sw(1, 20, 0, 0, all)); if (vk::thorough) { larger(sw(3, 4, 4, 4, few)); larger(sw(1, 40, 1, 0, all)); }
  for (auto& w : ws) {
    // alphabets are made from a world that is only used to know its entities
    struct Ctx { World w; std::vector<Q> full, mid, one; std::vector<Ans> bfull, bmid, bone; bool ready; };
    auto c = std::make_shared<Ctx>(); c->w = w; c->ready = false;
    { WH h; w.mk(h.w); c->full = alphabet(h.w, w.q, w.lim); c->mid = alphabet(h.w, w.q, vk::thorough && w.lim < 0 ? 2 : 1); std::set<std::string> seen; for (auto& q : c->mid) if (seen.insert(q.method).second) c->one.push_back(q); }
    auto prep = [c] { if (c->ready) return; auto base = [&](std::vector<Q> const& A, std::vector<Ans>& B) { for (auto& q : A) { WH h; c->w.mk(h.w); Ans a; q.f(h.w, 0, a); B.push_back(a); } }; base(c->full, c->bfull); base(c->mid, c->bmid); base(c->one, c->bone); c->ready = true; };
    auto check = [](Q const& q, W& w, int d, Ans const& want, std::string const& hist) { Ans a; q.f(w, d, a); vk::cmp(); vk::transitions(); if (!same(a, want)) { vk::fail((d ? "answer depends on old contents or history: " : "answer depends on history: ") + q.method, hist + " then " + q.name + " got " + strans(a) + " fresh " + strans(want)); return false; } return true; };
    std::set<std::string> lm; for (size_t x = 0; x < c->full.size(); x++) if (w.lim < 0 || vk::thorough || lm.insert(c->full[x].method).second) vk::run(w.name + " long " + c->full[x].name, [=] { prep(); WH h; c->w.mk(h.w); Q& X = c->full[x]; vk::states(); vk::traces();
      for (int d = 0; d < 3; d++) { WH g; c->w.mk(g.w); if (!check(X, g.w, d, c->bfull[x], "new")) return; }
      for (size_t y = 0; y < c->full.size(); y++) { if (!check(X, h.w, 1 + y % 2, c->bfull[x], "long history up to " + (y ? c->full[y - 1].name : ""))) return; if (!check(c->full[y], h.w, y % 3, c->bfull[y], "long history with " + X.name)) return; } });
    if (w.lim < 0 || vk::thorough) for (size_t x = 0; x < c->mid.size(); x++) vk::run(w.name + " pair " + c->mid[x].name, [=] { prep(); Q& X = c->mid[x];
      for (size_t y = 0; y < c->mid.size(); y++) { WH h; c->w.mk(h.w); Ans a; X.f(h.w, y % 3, a); vk::transitions(); vk::traces(); if (!check(c->mid[y], h.w, 1 + (x + y) % 2, c->bmid[y], X.name)) return; } vk::beat(); });
    if (vk::thorough && w.lim < 0) for (size_t x = 0; x < c->one.size(); x++) vk::run(w.name + " triple " + c->one[x].name, [=] { prep(); Q& X = c->one[x];
      for (size_t y = 0; y < c->one.size(); y++) { for (size_t z = 0; z < c->one.size(); z++) { WH h; c->w.mk(h.w); Ans a; X.f(h.w, 1, a); a.clear(); c->one[y].f(h.w, 2, a); vk::transitions(2); vk::traces(); if (!check(c->one[z], h.w, 1, c->bone[z], X.name + " then " + c->one[y].name)) return; } vk::beat(); } });
  }
}
