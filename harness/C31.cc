// C31: every code of the storage type of every enumeration, against the
// names documented in MeshDefs.hh
#include "MeshDefs.hh"
#include "MeshFactory.hh"
#include "errors.hh"
#include "exceptions.hh"
#include "vk.hh"
using namespace Jali;
template <class T> static std::string printed(T v) { std::ostringstream o; o << v; std::string s = o.str(); size_t a = s.find_first_not_of(' '); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(' ') - a + 1); }
template <class T> static void table(std::string const& en, int lo, int hi, std::map<int, std::string> const& names, std::string (*f)(T)) {
  for (int k = lo; k <= hi; k++) {
    vk::run(en + "(" + std::to_string(k) + ")", [&, k] {
      auto it = names.find(k);
      if (it == names.end()) vk::trivial();
      std::string want = it == names.end() ? "" : en + "::" + it->second;
      for (int rep = 0; rep < 2; rep++) {
        std::string got = f(static_cast<T>(k));
        vk::eq(got, want, "name");
        vk::eq(printed(static_cast<T>(k)), want, "printed name");
      }
    });
  }
}
template <class F> static void valid(std::string const& en, int lo, int hi, std::set<int> const& yes, std::set<int> const& open, F f) {
  for (int k = lo; k <= hi; k++) if (!open.count(k)) vk::run("valid " + en + "(" + std::to_string(k) + ")", [&, k] { vk::eq((bool)f(k), (bool)yes.count(k), "validity"); });
}
VK_CHECK("C31", "exploration", "every code of the 8 bit storage type of each enumeration (and framework codes -3..12); non-trivial: the code is an enumerator; each value asked twice") {
  table<Entity_kind>("Entity_kind", -128, 127, {{0,"NODE"},{1,"EDGE"},{2,"FACE"},{3,"CELL"},{4,"SIDE"},{5,"WEDGE"},{6,"CORNER"},{7,"FACET"},{8,"BOUNDARY_FACE"}}, [](Entity_kind k) { return Entity_kind_string(k); });
  table<Entity_type>("Entity_type", -128, 127, {{-1,"TYPE_UNKNOWN"},{0,"DELETED"},{1,"PARALLEL_OWNED"},{2,"PARALLEL_GHOST"},{3,"BOUNDARY_GHOST"},{4,"ALL"}}, [](Entity_type k) { return Entity_type_string(k); });
  table<Cell_type>("Cell_type", 0, 255, {{0,"CELLTYPE_UNKNOWN"},{1,"TRI"},{2,"QUAD"},{3,"POLYGON"},{4,"TET"},{5,"PRISM"},{6,"PYRAMID"},{7,"HEX"},{8,"POLYHED"}}, [](Cell_type k) { return Cell_type_string(k); });
  table<Partitioner_type>("Partitioner_type", 0, 255, {{0,"INDEX"},{1,"BLOCK"},{2,"METIS"},{3,"ZOLTAN_GRAPH"},{4,"ZOLTAN_RCB"}}, [](Partitioner_type k) { return Partitioner_type_string(k); });
  // enumerators themselves: their codes are what the tables above assume
  vk::run("enumerators", [] {
    std::vector<std::pair<Entity_kind, std::string>> k = {{Entity_kind::NODE,"NODE"},{Entity_kind::EDGE,"EDGE"},{Entity_kind::FACE,"FACE"},{Entity_kind::CELL,"CELL"},{Entity_kind::SIDE,"SIDE"},{Entity_kind::WEDGE,"WEDGE"},{Entity_kind::CORNER,"CORNER"},{Entity_kind::FACET,"FACET"},{Entity_kind::BOUNDARY_FACE,"BOUNDARY_FACE"}};
    for (auto& p : k) vk::eq(Entity_kind_string(p.first), "Entity_kind::" + p.second, "kind name");
    std::vector<std::pair<Entity_type, std::string>> t = {{Entity_type::TYPE_UNKNOWN,"TYPE_UNKNOWN"},{Entity_type::DELETED,"DELETED"},{Entity_type::PARALLEL_OWNED,"PARALLEL_OWNED"},{Entity_type::PARALLEL_GHOST,"PARALLEL_GHOST"},{Entity_type::BOUNDARY_GHOST,"BOUNDARY_GHOST"},{Entity_type::ALL,"ALL"}};
    for (auto& p : t) vk::eq(Entity_type_string(p.first), "Entity_type::" + p.second, "type name");
    std::vector<std::pair<Cell_type, std::string>> c = {{Cell_type::CELLTYPE_UNKNOWN,"CELLTYPE_UNKNOWN"},{Cell_type::TRI,"TRI"},{Cell_type::QUAD,"QUAD"},{Cell_type::POLYGON,"POLYGON"},{Cell_type::TET,"TET"},{Cell_type::PRISM,"PRISM"},{Cell_type::PYRAMID,"PYRAMID"},{Cell_type::HEX,"HEX"},{Cell_type::POLYHED,"POLYHED"}};
    for (auto& p : c) vk::eq(Cell_type_string(p.first), "Cell_type::" + p.second, "cell type name");
    std::vector<std::pair<Partitioner_type, std::string>> q = {{Partitioner_type::INDEX,"INDEX"},{Partitioner_type::BLOCK,"BLOCK"},{Partitioner_type::METIS,"METIS"},{Partitioner_type::ZOLTAN_GRAPH,"ZOLTAN_GRAPH"},{Partitioner_type::ZOLTAN_RCB,"ZOLTAN_RCB"}};
    for (auto& p : q) vk::eq(Partitioner_type_string(p.first), "Partitioner_type::" + p.second, "partitioner name");
  });
  // basic kinds valid, catch-alls and out of range invalid (whether the
  // derived kinds count as valid is left open by the documentation)
  valid("Entity_kind", -128, 127, {0, 1, 2, 3}, {4, 5, 6, 7, 8}, [](int k) { return entity_valid_kind(static_cast<Entity_kind>(k)); });
  valid("Entity_type", -128, 127, {0, 1, 2, 3, 4}, {-1, 0}, [](int k) { return valid_entity_type(static_cast<Entity_type>(k)); });
  valid("Cell_type", 0, 255, {1, 2, 3, 4, 5, 6, 7, 8}, {}, [](int k) { return cell_valid_type(static_cast<Cell_type>(k)); });
  Exceptions::set_exception_behavior_raise();
  std::map<int, std::string> fw = {{Simple, "Simple"}, {MSTK, "MSTK"}, {MOAB, "MOAB"}, {STKMESH, "stk::mesh"}};
  for (int k = -3; k <= 12; k++) vk::run("framework(" + std::to_string(k) + ")", [&, k] {
    if (!fw.count(k)) vk::trivial();
    for (int rep = 0; rep < 2; rep++) {
      MeshFramework_t f = static_cast<MeshFramework_t>(k); bool thrown = false; std::string s;
      try { s = framework_name(f); } catch (Errors::Message& m) { thrown = true; }
      if (fw.count(k)) { vk::ok(!thrown, "named framework raised an error"); vk::eq(s, fw[k], "framework name"); }
      else vk::ok(thrown || s == "UNKNOWN_FRAMEWORK" || s.empty(), "unknown framework has a name", s);
    }
  });
}
