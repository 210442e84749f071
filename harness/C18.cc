// C18: sets restricted to tiles.
#include "tiles.hh"
using namespace ref;
static Entity_type const TY[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL};
VK_CHECK("C18", "exploration", "every assignment of owned cells to two tiles (and one group left untiled) x 0..2 halo layers on all small meshes of up to 4 (thorough 5) cells with ghost and boundary-ghost labellings; for every kind a family of sets: every subset of the entities when there are at most 6 (thorough 8), else every single entity and every residue class modulo 2..5, plus the empty set; residue classes on chunks and residue classes of meshes of 20 to 70 cells; up to 260 tiles on meshes of up to 700 cells; sets of about 350 entities on meshes of 34200 to 70000 cells; all three types, dirty output lists; the same question before and after a set is edited; a case is a mesh") {
  Exceptions::set_exception_behavior_raise();
  for (auto& tm : tilemeshes(vk::thorough ? 5 : 4, vk::thorough)) for (int layers = 0; layers < 3; layers++) vk::run(tm.name + " layers " + std::to_string(layers), [=] {
    Req q = tm.edges ? Req::all() : Req(); VI ow; { auto m = tm.make(q); ow = m->cells<Entity_type::PARALLEL_OWNED>(); } int n = ow.size(); int tot = 1; for (int i = 0; i < n; i++) tot *= 3;
    for (int a = 0; a < tot; a++) { VI g[3]; int x = a; for (int i = 0; i < n; i++) { g[x % 3].push_back(ow[i]); x /= 3; } if (g[0].empty()) continue;
      std::string cx = "tiles " + vk::str(g[0]) + vk::str(g[1]); vk::set_current(cx); auto m = tm.make(q); std::vector<TileP> ts;
      for (int i = 0; i < 2; i++) if (g[i].size()) ts.push_back(Jali::make_meshtile(*m, g[i], layers, q.f, q.e, q.s, q.w, q.c));
      for (int k = 0; k < 7; k++) if (asked(q, k)) { int id = 0;   // names are shared by the kinds
        VI all = list(*m, k, Entity_type::ALL); int N = all.size(); std::vector<VI> sets; int lim = vk::thorough ? 8 : 6;
        if (N <= lim) for (int s = 0; s < (1 << N); s++) { VI v; for (int i = 0; i < N; i++) if (s >> i & 1) v.push_back(all[i]); sets.push_back(v); }
        else { sets.push_back(VI()); sets.push_back(all); if (N < 40) for (int e : all) sets.push_back({e}); for (int mo = 2; mo < 6; mo++) for (int r = 0; r < mo; r++) { VI v; for (int i = 0; i < N; i++) if (i % mo == r) v.push_back(all[i]); sets.push_back(v); } }
        for (auto& s : sets) { VI o, gh; for (int e : s) { auto t = m->entity_get_type(KINDS[k], e); if (t == Entity_type::PARALLEL_OWNED) o.push_back(e); if (t == Entity_type::PARALLEL_GHOST) gh.push_back(e); }
          std::string nm = "s" + std::to_string(id++); auto ms = Jali::make_meshset(nm, *m, KINDS[k], o, gh, false); std::set<int> S(o.begin(), o.end()); S.insert(gh.begin(), gh.end()); vk::states();
          for (size_t t = 0; t < ts.size(); t++) for (auto ty : TY) { VI want; for (int e : list(*ts[t], k, ty)) if (S.count(e)) want.push_back(e);
            VI got = junk(); ts[t]->get_set_entities(nm, KINDS[k], ty, &got); vk::eq(vk::sorted(got), vk::sorted(want), std::string("set of ") + KN[k] + "s on a tile", "tile " + std::to_string(t) + " type " + std::to_string((int)ty) + " set " + vk::str(s)); }
          if (vk::failed()) return; }
        // the same question again after the set was edited: every entity that may be in it taken out or put in
        if (sets.size() > 1) { std::string nm = "s" + std::to_string((a + k) % sets.size()); auto ms = m->find_meshset(nm, KINDS[k]); std::set<int> S(ms->entities().begin(), ms->entities().end());
          for (size_t t = 0; t < ts.size(); t++) for (auto ty : TY) for (int e : all) { if (m->entity_get_type(KINDS[k], e) == Entity_type::BOUNDARY_GHOST || (N > 12 && e % 5)) continue;
            for (int twice = 0; twice < 2; twice++) { VI want, got = junk(), g0; ts[t]->get_set_entities(nm, KINDS[k], ty, &g0); if (S.count(e)) { ms->rem_entity(e); S.erase(e); } else { ms->add_entity(e); S.insert(e); } ts[t]->get_set_entities(nm, KINDS[k], ty, &got); for (int x : list(*ts[t], k, ty)) if (S.count(x)) want.push_back(x);
              vk::transitions(); if (!vk::eq(vk::sorted(got), vk::sorted(want), std::string("set of ") + KN[k] + "s on a tile after an edit", "tile " + std::to_string(t) + " type " + std::to_string((int)ty) + " toggled " + std::to_string(e))) return; } } }
        // a name that was never registered, and a registered name of another kind
        for (auto ty : TY) { VI got = junk(); ts[0]->get_set_entities("none", KINDS[k], ty, &got); vk::eq(got, VI(), "unregistered set"); }
      } } });
  for (auto& tm : bigtilemeshes()) vk::run(tm.name + " large", [=] { Req q = tm.edges ? Req::all() : Req(); VI ow; { auto m = tm.make(q); ow = m->cells<Entity_type::PARALLEL_OWNED>(); }
    auto S = bigsubsets(ow); for (size_t si = 0; si < S.size(); si++) { auto& g = S[si]; int layers = si % 3; vk::set_current("tile " + vk::str(g) + " layers " + std::to_string(layers)); auto m = tm.make(q); auto t = Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c);
      for (int k = 0; k < 7; k++) if (asked(q, k)) { VI all = list(*m, k, Entity_type::ALL); int id = 0;
        for (int mo : {1, 2, 3, 5}) for (int r = 0; r < mo; r += std::max(1, mo - 1)) { VI o, gh; for (size_t i = r; i < all.size(); i += mo) { auto ty = m->entity_get_type(KINDS[k], all[i]); if (ty == Entity_type::PARALLEL_OWNED) o.push_back(all[i]); if (ty == Entity_type::PARALLEL_GHOST) gh.push_back(all[i]); }
          std::string nm = "s" + std::to_string(id++); Jali::make_meshset(nm, *m, KINDS[k], o, gh, false); std::set<int> W(o.begin(), o.end()); W.insert(gh.begin(), gh.end()); vk::states();
          for (auto ty : TY) { VI want; for (int e : list(*t, k, ty)) if (W.count(e)) want.push_back(e); VI got = junk(); t->get_set_entities(nm, KINDS[k], ty, &got); vk::eq(vk::sorted(got), vk::sorted(want), std::string("set of ") + KN[k] + "s on a tile", "type " + std::to_string((int)ty)); } } }
      if (vk::failed()) return; } });
  for (auto& tm : hugetilemeshes()) for (int nt : {1, 130, 260}) vk::run(tm.name + " with " + std::to_string(nt) + " tiles", [=] { Req q = tm.edges ? Req::all() : Req(); Req p = q; p.tiles = nt; p.tghost = 1; auto m = tm.make(p);
    for (int k = 0; k < 7; k++) if (asked(q, k)) { VI all = list(*m, k, Entity_type::ALL); int id = 0;
      for (int mo : {1, 3}) { VI o, gh; for (size_t i = mo / 2; i < all.size(); i += mo) { auto ty = m->entity_get_type(KINDS[k], all[i]); if (ty == Entity_type::PARALLEL_OWNED) o.push_back(all[i]); if (ty == Entity_type::PARALLEL_GHOST) gh.push_back(all[i]); }
        std::string nm = "s" + std::to_string(id++); Jali::make_meshset(nm, *m, KINDS[k], o, gh, false); std::set<int> W(o.begin(), o.end()); W.insert(gh.begin(), gh.end()); vk::states(); vk::beat();
        int i = 0; for (auto& t : m->tiles()) { if (i++ % 16 && i != m->num_tiles()) continue; for (auto ty : TY) { VI want; for (int e : list(*t, k, ty)) if (W.count(e)) want.push_back(e); VI got = junk(); t->get_set_entities(nm, KINDS[k], ty, &got); vk::eq(vk::sorted(got), vk::sorted(want), std::string("set of ") + KN[k] + "s on a tile", "tile " + std::to_string(i - 1) + " type " + std::to_string((int)ty)); } if (vk::failed()) return; } } } });
  for (auto& tm : gianttilemeshes()) for (int layers = 0; layers < 2; layers++) vk::run(tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many cells, layers " + std::to_string(layers), [=] { Req q = tm.edges ? Req::all() : Req(); auto m = tm.make(q); std::vector<TileP> T; for (auto& g : giantgroups(m->cells<Entity_type::PARALLEL_OWNED>())) T.push_back(Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c)); vk::beat();
    for (int k = 0; k < 7; k++) if (asked(q, k)) { VI all = list(*m, k, Entity_type::ALL); VI o, gh; int N = all.size(); for (int i = 0; i < N; i++) if (i % (N / 200 + 1) == 0 || i >= N - 150) { auto ty = m->entity_get_type(KINDS[k], all[i]); if (ty == Entity_type::PARALLEL_OWNED) o.push_back(all[i]); if (ty == Entity_type::PARALLEL_GHOST) gh.push_back(all[i]); }
      for (int rev = 0; rev < 2; rev++) { std::string nm = "s" + std::to_string(rev); Jali::make_meshset(nm, *m, KINDS[k], o, gh, rev); std::set<int> W(o.begin(), o.end()); W.insert(gh.begin(), gh.end()); vk::states(); for (size_t t = 0; t < T.size(); t++) for (auto ty : TY) { VI want; for (int e : list(*T[t], k, ty)) if (W.count(e)) want.push_back(e); VI got = junk(); T[t]->get_set_entities(nm, KINDS[k], ty, &got); vk::beat(); vk::eq(vk::sorted(got), vk::sorted(want), std::string("set of ") + KN[k] + "s on a tile", "tile " + std::to_string(t) + " type " + std::to_string((int)ty)); } } if (vk::failed()) return; } });
}
