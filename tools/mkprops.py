#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
M='src/mesh/Mesh.cc'; MH='src/mesh/Mesh.hh'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A generated 3D box mesh is the exact conforming hexahedral grid asked for",
 "For every box and every number of cells per direction, the generated mesh has exactly the expected cells, faces and nodes, node positions that span the box uniformly, eight nodes per cell in the standard hexahedron order and six faces per cell with correct in/out directions. Every face separates the right one or two cells, and every upward query (node to cells, node to faces, node to faces of one cell, face to cells, cell to face/node neighbours) is the exact inverse of the downward connectivity. Queries restricted to owned entities give everything and queries restricted to ghosts give nothing on such a serial mesh.",
 ["inputs","configurations"],"all cell counts nx,ny,nz up to a bound, several boxes, all option combinations of the mesh constructor that matter; every entity and every query on each",
 "tests look at one 1x1x1, one 2x2x2 and one 3x3x3 mesh and check selected entities; which index arithmetic is wrong depends on unequal nx, ny, nz and on boundary position",
 ["src/mesh/mesh_simple/Mesh_simple.cc","src/mesh/mesh_simple/Mesh_simple.hh"],
 [("index arithmetic for nodes/faces/cells","src/mesh/mesh_simple/Mesh_simple.hh: cell_index_, xyface_index_, xzface_index_, yzface_index_, node_index_"),("connectivity construction","src/mesh/mesh_simple/Mesh_simple.cc: update_internals_3d_"),("adjacency queries","src/mesh/mesh_simple/Mesh_simple.cc: node_get_cells, node_get_faces, node_get_cell_faces, cell_get_face_adj_cells, cell_get_node_adj_cells")],
 ["cell_get_nodes, cell_get_faces_and_dirs, face_get_nodes, face_get_cells, node_get_*"])
p("C02","A generated 1D mesh is the exact chain of segments asked for",
 "For every increasing list of positions, Cartesian or spherical, the generated one-dimensional mesh has one node and one face per position, one segment per gap, directions that point out of the segment at its right end and into it at its left end, and queries in both directions that are exact inverses of each other. Lengths (or shell volumes), face areas, centroids and normals are those of the segments and points.",
 ["inputs","configurations"],"all cell counts up to a bound, several spacing patterns, both geometry types, every entity and query",
 "tests use one four-cell mesh per geometry type and do not compare neighbours, types and filtered queries",
 ["src/mesh/mesh_simple/Mesh_simple.cc","src/geometry/Geometry.cc",M],
 [("1D connectivity","src/mesh/mesh_simple/Mesh_simple.cc: update_internals_1d_"),("1D geometry","src/geometry/Geometry.cc: segment_get_vol_centroid, face1d_get_area; src/mesh/Mesh.cc: compute_face_geometry")])
p("C03","Adjacency queries report exactly the connectivity of the underlying mesh",
 "On any polygonal, polyhedral or surface mesh, with or without ghost cells, the cell-to-face, face-to-cell, cell-to-edge, face-to-edge, edge-to-node and face-edge-to-cell-edge queries return exactly what the underlying mesh defines, with the matching directions and one direction per returned entity. Restricting a query to owned or to ghost entities returns exactly the members of that type, and output lists supplied by the caller never keep old contents.",
 ["configurations","inputs"],"all meshes of a bounded family (polygons, polyhedra, surface meshes) x all ghost labellings of a bounded family x every query x every type filter",
 "only a structured mesh can be tested in the build (no other mesh framework is present), it has no edges and no ghosts, so cached adjacency with ghosts, edges, polygons and polyhedra is never run",
 [M,MH],
 [("adjacency caches","src/mesh/Mesh.cc: cache_cell2face_info, cache_face2cell_info, cache_face2edge_info, cache_cell2edge_info, cache_edge2node_info"),("filters","src/mesh/Mesh.cc: face_get_cells, face_to_cell_edge_map")])
p("C04","Cell, face and edge geometry is exact and consistent with the topology",
 "For any mesh with planar-faced cells, cell volumes, face areas, edge lengths, centroids, edge vectors and face normals equal those of the shapes described by the node positions. The normal asked for with respect to a cell points out of that cell with the reported orientation (opposite for its neighbour), outward normals of a cell sum to zero, asking for a recomputed value gives the same answer as the stored one, and a point is reported to be in a convex cell exactly when it is inside it.",
 ["inputs","configurations"],"all meshes of a bounded family of polygonal, polyhedral, surface and 1D meshes under several exact affine maps; every cell/face/edge and both stored/recomputed values",
 "tests compare a few hard-coded volumes and centroids of one structured mesh and one surface mesh that the build cannot run",
 [M,"src/geometry/Geometry.cc"],
 [("geometry computation","src/mesh/Mesh.cc: compute_cell_geometry, compute_face_geometry, compute_edge_geometry"),("normals per cell","src/mesh/Mesh.cc: face_normal, edge_vector")])
p("C05","After any history of node moves and updates the geometry equals a fresh mesh's",
 "After any sequence of node coordinate changes and geometry updates, every stored geometric quantity equals that of a newly created mesh with the coordinates at the last update, while recomputed quantities always reflect the current coordinates. Node positions read back are exactly those last written.",
 ["histories"],"all sequences, up to a depth, of moves of chosen nodes to chosen positions interleaved with updates; complete comparison of every geometric query after every step",
 "no test updates geometry more than once after construction; stale caches need a second update to show",
 [M,"src/mesh/mesh_simple/Mesh_simple.cc"],
 [("update","src/mesh/Mesh.cc: update_geometric_quantities and compute_*_geometric_quantities"),("coordinates","src/mesh/mesh_simple/Mesh_simple.cc: node_set_coordinates")])
p("C06","Sides, wedges and corners form a complete, mutually inverse decomposition",
 "For any mesh, each cell has exactly one side per face-edge pair (two per cell in 1D), two wedges per side and one corner per node, and every upward and downward query among cells, faces, edges, nodes, sides, wedges and corners agrees. Opposite sides and wedges are mutual, lie in the two different cells of the same face, share the edge and (wedges) the node, and are absent exactly at faces with one cell; adjacent wedges are the two of one side.",
 ["configurations","inputs"],"all meshes of a bounded family x bounded ghost labellings (owned, ghost, boundary ghost), every subcell entity and query",
 "subcell tests need the external mesh framework, so they do not run in this build; and a handful of meshes cannot cover mixed polytopes with ghosts",
 [M,MH],
 [("subcell construction","src/mesh/Mesh.cc: cache_side_info, cache_wedge_info, cache_corner_info"),("subcell queries","src/mesh/Mesh.hh: side_get_*, wedge_get_*, corner_get_*; src/mesh/Mesh.cc: cell_get_sides/wedges/corners, node_get_wedges, node_get_corners")])
p("C07","Side, wedge and corner geometry exactly tiles every cell",
 "In any valid cell the volumes of its sides, of its wedges and of its corners are positive and each set sums to the cell volume, and each wedge is half its side. Coordinates returned for a subcell are those of its node, edge, face and cell centres in the documented order (positive-volume order on request), facet normals have the right size and point out of the cell (or from one wedge to its partner), and a corner's outward facets close up around its volume.",
 ["inputs","configurations"],"all meshes of the bounded family under several affine maps; every side, wedge and corner, natural and positive order, stored and recomputed",
 "subcell geometry tests do not run in this build; exact tiling is a universally quantified statement over cells",
 [M],[("subcell geometry","src/mesh/Mesh.cc: compute_side_geometry, compute_corner_geometry, side/wedge/corner_get_coordinates, corner_get_facetization, wedge_facet_normal")])
p("C08","Entity lists, counts and types agree for every kind and parallel type",
 "For each kind of entity, the full list holds every entity once, the owned, ghost and boundary-ghost lists are disjoint and make up the full list, every count equals the length of the matching list, and the type reported for an entity says which list it is in. Entities of kinds that were not requested have type unknown, and requesting corners, wedges or sides brings along the kinds they are built from.",
 ["configurations"],"all 32 combinations of requested kinds x all ghost labellings of a bounded family x all kinds and types",
 "tests look at serial meshes with default requests",
 [M,MH],[("type cache","src/mesh/Mesh.cc: cache_type_info, entity_get_type"),("lists and counts","src/mesh/Mesh.hh: num_entities, cells<>, nodes<>, sides<> ...")])
p("C09","Tiles partition the owned cells and give each entity one master tile",
 "Whatever the number of tiles, the partitioner or the cell groups chosen by the user, every owned cell belongs to exactly one tile as an owned cell and its master tile is that tile. Every node, edge, face, side, wedge and corner of an owned cell of some tile has exactly one master tile, which is a tile with an adjacent owned cell, and an entity is listed as owned in its master tile and in no other.",
 ["configurations","inputs"],"all set partitions of the cells of small meshes into user tiles (in every creation order), all tile counts x all partitioners on the larger ones, x requested kinds",
 "tile tests use one mesh, one tile count; ownership on shared entities depends on the assignment of all surrounding cells",
 ["src/mesh/MeshTile.cc","src/mesh/MeshTile.hh",M],
 [("tile construction","src/mesh/MeshTile.cc: MeshTile::MeshTile, make_meshtile"),("master tile","src/mesh/Mesh.hh: master_tile_ID_of_*; src/mesh/Mesh.cc: build_tiles, init_tiles")])
p("C10","Tile halos are exactly the cells within the requested number of layers",
 "A tile's ghost cells are exactly the cells outside the tile that can be reached from its owned cells in at most the requested number of steps through node-sharing neighbours, each listed once, none of them owned by the tile; with zero layers there are none. The tile's full cell list is its owned cells followed by its ghosts.",
 ["configurations"],"all connected and disconnected cell groups of small meshes x 0..3 layers x ghost labellings",
 "one mesh and at most one layer is tested",
 ["src/mesh/MeshTile.cc"],[("halo growth","src/mesh/MeshTile.cc: get_overlap/ghost layer loop in the constructor")])
p("C11","Tile entity lists are the exact closure of the tile's cells",
 "For every kind of entity requested on a tile, the tile's full list holds exactly the entities of that kind belonging to its owned or ghost cells, each once, and splits into owned and ghost parts without overlap; counts equal list lengths. A kind that was not requested gives empty lists, whatever else was requested.",
 ["configurations"],"all cell groups of small meshes x layers x all 32 combinations of requested kinds on mesh and tile x all kinds and types",
 "only default requests on one mesh are tested",
 ["src/mesh/MeshTile.cc","src/mesh/MeshTile.hh"],[("entity collection","src/mesh/MeshTile.cc: MeshTile::MeshTile"),("queries","src/mesh/MeshTile.hh: num_entities, nodes<>, sides<> ...")])
p("C12","Every partitioner splits the owned cells completely and without overlap",
 "For every partitioner and number of parts (even more parts than cells), each owned cell is put in exactly one part and ghost cells are put in none; index partitioning keeps cells in increasing order in consecutive chunks, and block partitioning gives rectangular blocks on a regular mesh (in one, two or three dimensions).",
 ["configurations","inputs"],"all regular meshes up to a bound in 1D, 2D and 3D and a family of irregular ones, all partitioners, all part counts up to a bound",
 "one mesh with one part count per partitioner is tested",
 [M],[("partitioning","src/mesh/Mesh.cc: get_partitioning, get_partitioning_by_index_space, get_partitioning_by_blocks, get_partitioning_with_metis")])
p("C13","Block decomposition of a regular grid is an exact cover by boxes",
 "For every grid size in one, two or three dimensions and every feasible number of blocks, the decomposition returns exactly that number of non-empty boxes that lie in the grid, do not overlap and cover every cell; asking for more blocks than cells is refused. The answer depends only on the arguments.",
 ["inputs"],"all grid sizes up to a bound per dimension x all block counts for which a decomposition exists within the bound",
 "four fixed examples are tested",
 ["src/mesh/block_partition.cc","src/mesh/block_partition.hh"],[("recursive subdivision","src/mesh/block_partition.cc: block_partition_regular_mesh, intersect_boxes-like helpers")])
p("C14","Editing a mesh set by any sequence of adds and removes keeps it consistent",
 "After any sequence of single or bulk adds of absent entities and removes, a set holds exactly the entities a mathematical set would, split into owned and ghost parts by the type of each entity, each entity listed once in its part and in the full list, which has the owned part first and the ghost part after it. When a reverse map was asked for, it gives each entity's position in the full list and reports absence for everything else, and counts equal list lengths.",
 ["histories"],"all sequences of add/remove operations up to a depth over a small universe of owned and ghost entities, with and without reverse map",
 "tests add and remove one entity each on a serial mesh",
 ["src/mesh/MeshSet.cc","src/mesh/MeshSet.hh"],[("editing","src/mesh/MeshSet.cc: add_entity, add_entities, rem_entity, rem_entities"),("reverse map","src/mesh/MeshSet.hh: index_in_set")],
 None,[{"name":"owned/ghost/all lists and reverse map","meaning":"members of the set","where":"src/mesh/MeshSet.hh"}])
p("C15","Union, intersection, difference and complement of mesh sets are exact",
 "For every list of argument sets of one kind on one mesh, the union, intersection, difference and complement contain exactly the owned and the ghost entities that set algebra prescribes, each once, leave all the arguments (members, names, order) unchanged, and give a result with a reverse map when the arguments have one. Results that are meant to stay are registered with the mesh exactly once.",
 ["inputs","configurations"],"all pairs (and triples over a smaller universe) of subsets of a small universe with owned and ghost entities, all four operations, temporary or not",
 "one example per operation is tested",
 ["src/mesh/MeshSet.cc"],[("algebra","src/mesh/MeshSet.cc: merge, intersect, subtract, complement")])
p("C16","Sets built from regions hold exactly the entities that lie in the region",
 "For every region kind (box, plane, polygon, point, labelled, and logical combinations) and every entity kind it supports, the set built from it contains exactly the owned and the ghost entities that satisfy the documented geometric criterion, each once and in the right part. Logical regions give the set-algebra result of their components, whatever the order in which the regions were declared, and leave the components' sets intact. An unknown region or component, and a region that cannot define a set of the kind asked for, are refused with an error.",
 ["inputs","configurations"],"all boxes, planes, polygons and points on a half-cell lattice over small 2D, 3D and surface meshes x entity kinds x ghost labellings; all logical operations over pairs/triples of them and declaration orders",
 "a few regions on one mesh, with the external framework, which does not run here",
 [M,"src/geometry/Region.cc","src/geometry/LogicalRegion.cc"],[("set construction","src/mesh/Mesh.cc: build_set_from_region, init_sets_from_geometric_model")])
p("C17","The set registry never loses, duplicates or mixes up sets",
 "After any sequence of set creations, initialisations from the geometric model and look-ups, looking up a name and kind returns the set registered under that name and kind (or nothing), the counts and lists per kind match the registered sets, and repeating an initialisation adds nothing. Sizes and entity lists queried by name equal those of the set, for each parallel type.",
 ["histories"],"all sequences up to a depth of registry operations over a few names, kinds and regions",
 "tests initialise once and look up a few names",
 [M,"src/mesh/MeshSet.cc"],[("registry","src/mesh/Mesh.cc: add_set, find_meshset, sets, num_sets, get_set_size, get_set_entities, init_sets_from_geometric_model")])
p("C18","Set queries on a tile give exactly the part of the set that lies in the tile",
 "For every tile, mesh set, kind and type, the entities of the set on the tile are exactly the set's entities that the tile lists under that type.",
 ["configurations","inputs"],"all cell groups as tiles x all sets of a bounded family x kinds x types",
 "one tile and set pair is tested",
 ["src/mesh/MeshTile.cc","src/mesh/MeshTile.hh"],[("tile set queries","src/mesh/MeshTile.cc: get_set_entities")])
p("C19","State vectors are found, listed and counted exactly as they were added",
 "After any sequence of adding state vectors (on the mesh or its tiles, of several kinds, types and element types), looking one up by name, domain, kind and type returns a vector added with these and nothing else (ALL and ANY_KIND match every type and kind), duplicates are not added twice, counts and names match, and iterating over the vectors of one kind visits exactly those vectors in the order added. Looking up something that was never added reports absence.",
 ["histories"],"all sequences up to a depth of add operations over a small alphabet of names, kinds, types, element types and domains, with every look-up after every step",
 "tests add a handful of vectors in one order",
 ["src/statemanager/JaliState.h","src/statemanager/JaliState.cc","src/statemanager/JaliStateVector.h"],[("registry","src/statemanager/JaliState.h: add, find, get, entity_begin/end, size")],
 None,[{"name":"state vector list and per-kind index lists","meaning":"what was added, in order","where":"src/statemanager/JaliState.h"}])
p("C20","State vector contents are preserved, independent and sized to their domain",
 "A state vector holds one value per entity of its kind and type on its domain, initially the values it was given, and afterwards exactly what was last written at each index through any handle. Copying a vector gives independent values, while assigning or re-getting a handle shares them, and changing one vector never changes another.",
 ["histories","configurations"],"all sequences up to a depth of write/copy/assign/get operations on a few vectors over all kinds, types, domains and element types",
 "tests write and read a few values once",
 ["src/statemanager/JaliStateVector.h","src/statemanager/JaliState.h"],[("vector storage","src/statemanager/JaliStateVector.h: UniStateVector")])
p("C21","Multi-material state stays aligned with material cell sets in any history",
 "After any sequence of adding and removing materials, adding and removing cells of a material, and adding and writing multi-material vectors, each material lists exactly its cells, each cell lists exactly its materials, and each multi-material vector has one value per cell of each material. Values written for a cell and material are read back unchanged through both the material-centred and the cell-centred view until that cell or material is removed. Removing single cells of a material, which is documented as not implemented, is refused and changes nothing.",
 ["histories"],"all sequences up to a depth of the operations over small meshes, with several materials and vectors",
 "one fixed scenario is tested",
 ["src/statemanager/JaliState.h","src/statemanager/JaliState.cc","src/statemanager/JaliStateVector.h"],[("material bookkeeping","src/statemanager/JaliState.cc: add_material, rem_material, add_cells_to_material, rem_cells_from_material"),("per-material data","src/statemanager/JaliStateVector.h: MultiStateVector")])
p("C22","Exchanging fields with the mesh transfers every field unchanged",
 "Initialising state from the mesh creates one vector per field the mesh reports, on the right kind of entity, with the right element type and the mesh's values in order; exporting hands every exportable mesh-based vector to the mesh with its name, kind and values. Export followed by initialisation of an empty state reproduces the vectors.",
 ["configurations","inputs"],"all combinations of a bounded number of fields over kinds x element types x value patterns, and all small state contents for export",
 "needs the external framework, so it does not run in this build",
 ["src/statemanager/JaliState.cc"],[("import/export","src/statemanager/JaliState.cc: init_from_mesh, export_to_mesh")])
p("C23","Region membership is exactly the documented geometric criterion",
 "A point is inside a box, plane, point or polygon region exactly when it satisfies that shape's definition within its tolerance, whatever the order or orientation in which the defining points were given and after copying the region. Regions keep the name, identifier, kind, dimension, lifecycle and defining data they were created with, including in copies. Polygons with too few points, or not in two or three dimensions, and unknown logical operations are refused.",
 ["inputs"],"all boxes/planes/points/polygons with defining points on a small lattice (all orders and orientations) x all query points on a finer lattice in 1D/2D/3D",
 "a few boxes with a few points are tested; polygons are not built at all",
 ["src/geometry/BoxRegion.cc","src/geometry/PlaneRegion.cc","src/geometry/PointRegion.cc","src/geometry/PolygonRegion.cc","src/geometry/LogicalRegion.cc","src/geometry/LabeledSetRegion.cc","src/geometry/Region.cc"],[("inside tests","src/geometry/*Region.cc: inside")])
p("C24","Polygon, polyhedron and segment measures and point tests are exact",
 "For every convex polygon in the plane or in space, every polyhedron with planar faces and every segment, area or volume, centroid and normal equal the exact values, do not depend on which vertex or face comes first and follow rotations, translations and scalings of the shape. The vector area is exact for every polygon, convex or not, and cells with curved quadrilateral faces have the volume and centroid of their documented decomposition. A point strictly inside a convex polyhedron or a simple polygon is reported inside and one strictly outside is reported outside. A planar polygon or a polyhedron of which any part is inverted is marked by a negative area or volume.",
 ["inputs"],"all convex and simple lattice polygons and tetrahedra/pyramids/prisms/hexahedra on a small lattice in all orientations and starting positions, hexahedra with moved corners, all lattice query points",
 "a few fixed shapes are tested",
 ["src/geometry/Geometry.cc"],[("primitives","src/geometry/Geometry.cc: polygon_get_area_centroid_normal, polyhed_get_vol_centroid, segment_get_vol_centroid, point_in_polygon, point_in_polyhed")])
p("C25","Point arithmetic obeys vector algebra in every dimension",
 "For points of one, two and three dimensions, setting, copying, indexing, addition, subtraction, negation, scaling, dot and cross products, norm and distance give the exact component-wise results of vector algebra, leave their operands unchanged and keep the dimension, including when a point is assigned to itself or to one of a different dimension.",
 ["inputs","histories"],"all pairs of lattice points in 1D/2D/3D for every operation; all short sequences of mutating operations against a reference",
 "a few values are tested",
 ["src/geometry/Point.hh"],[("operators","src/geometry/Point.hh")])
p("C26","Geometric models and domains keep exactly the regions given to them",
 "After any sequence of additions, a geometric model or domain reports exactly the regions (and free regions, and models) added, in order, found by name, identifier and index, and nothing for unknown ones; adding a region or model whose dimension does not fit is refused and changes nothing. Constructing from lists of fitting regions and models is equivalent to adding them one at a time, and copies hold the same and are independent.",
 ["histories","configurations"],"all sequences up to a depth of additions over a small alphabet of regions and both construction styles",
 "one example is tested",
 ["src/geometry/GeometricModel.cc","src/geometry/Domain.cc"],[("registries","src/geometry/GeometricModel.cc: Add_Region, FindRegion; src/geometry/Domain.cc: Add_Geometric_Model, Add_Free_Region")])
p("C27","Mesh factory options behave as independent settings and reset restores all",
 "After any sequence of option settings and resets, the factory reports and uses for the next mesh exactly the last value set for each option since the last reset, or its default. A mesh created by the factory has the requested box, cell counts, entity kinds, tiles, halo layers, geometric model, geometry type and partitioner.",
 ["histories","configurations"],"all sequences up to a depth of option setters/resets/creations, with the state of every option checked after every step",
 "each option is tested alone, mostly with a framework that is not in this build",
 ["src/mesh/mesh_factory/MeshFactory.hh","src/mesh/mesh_factory/MeshFactory.cc"],[("options","src/mesh/mesh_factory/MeshFactory.hh: setters, reset_options"),("creation","src/mesh/mesh_factory/MeshFactory.cc: operator()")])
p("C28","Mesh creation succeeds or fails together on all ranks, never hanging",
 "For every request, framework, dimension and number of ranks, creation either returns a mesh of the requested framework on every rank or reports failure by an error on every rank, even if only some ranks fail locally; it never returns an empty handle, and all ranks take part in the same collective operations. Requests that cannot be met (no cells, no extent, an unsuitable dimension, no framework) are refused with an error. Only frameworks that are really built in are reported available or used, and a framework is used only for what it supports. A factory made for a communicator involves the ranks of that communicator and no others, and its meshes report that communicator.",
 ["fault_sequences","configurations","schedules"],"all subsets of ranks failing locally x 1..3 ranks x all creation calls x frameworks x dimensions x file formats, on a simulated communicator that detects mismatched collectives",
 "failure on some ranks only cannot be produced by a test that runs the real library",
 ["src/mesh/mesh_factory/MeshFactory.cc","src/mesh/mesh_factory/MeshFactory.hh"],[("collective error agreement","src/mesh/mesh_factory/MeshFactory.cc: create methods (MPI_Allreduce of the error flag)"),("framework tables","src/mesh/mesh_factory/MeshFactory.cc: framework_available, framework_generates, framework_reads")])
p("C29","Errors follow the chosen policy and messages keep all they are given",
 "The error policy last chosen decides what happens to every error raised through the error facility (Jali_throw), from whatever file of the program: raise an exception or abort. A message's text is the exact concatenation of everything added to it, in order, copies are independent, and a caught error carries the same text and type.",
 ["histories"],"all sequences up to a depth of policy changes and raises from different translation units; all sequences of message appends, copies and assignments up to a depth",
 "tests read the setting back in the same file only; and append once or twice",
 ["src/error_handling/exceptions.hh","src/error_handling/exceptions.cc","src/error_handling/errors.hh","src/error_handling/errors.cc"],[("policy","src/error_handling/exceptions.hh: Jali_throw"),("messages","src/error_handling/errors.cc: Message")])
p("C30","Mesh queries are pure: no query, in any order, changes any answer",
 "Asking any queries of a mesh, its tiles, sets or regions, in any order and any number of times, changes no later answer: every answer equals the one given by a newly created identical mesh asked only that question. The contents of caller-supplied output arguments before the call never matter.",
 ["histories"],"all ordered pairs (and bounded longer sequences) of queries from the full query alphabet on a family of meshes, with clean and dirty output arguments",
 "each test asks its queries in one order on fresh variables",
 [M,MH],[("lazy/mutable caches","src/mesh/Mesh.hh: mutable members; src/mesh/Mesh.cc")])
p("C31","Names of kinds, types and frameworks are correct and distinct",
 "Every entity kind, entity type, cell type, partitioner type and mesh framework has its own non-empty name that matches its meaning, printing a value prints that name, and a code outside the range has no name. The basic kinds (node, edge, face, cell), the parallel types and the concrete cell types are reported valid; catch-all kinds, the unknown cell type and codes outside the range are reported invalid.",
 ["inputs"],"every value of each enumeration and all out-of-range codes of its storage type",
 "not tested",
 ["src/mesh/MeshDefs.hh","src/geometry/Region.hh","src/geometry/Geometry.hh","src/mesh/mesh_factory/MeshFactory.hh"],[("string tables","src/mesh/MeshDefs.hh: *_string, valid_*")])
p("C32","Operations affect only what they name, with several meshes and states alive",
 "With several meshes, states and mesh factories alive in one process (also meshes that are identical or share a geometric model), an operation changes only the objects it concerns and those that depend on them: making tiles or sets, editing sets, moving nodes, asking for anything in any order, adding materials or state data, writing data, setting factory options, and the creation and destruction of yet other meshes, states or factories leave the topology, geometry, tiles, sets, state data and factory results of every other object exactly as if the operation had not happened.",
 ["histories"],"every interleaving, up to a depth, of operations on two halves of a world and of temporary objects",
 "tests build one mesh at a time and never compare with a run without the other operations",
 ["src/mesh/Mesh.cc","src/mesh/Mesh.hh","src/mesh/MeshTile.cc","src/mesh/MeshSet.cc","src/statemanager/JaliState.h","src/mesh/mesh_factory/MeshFactory.cc"],[("everything that a mesh, tile, set, state or factory caches","src/mesh/Mesh.cc; src/mesh/MeshTile.cc; src/statemanager/JaliState.h")])
p("C33","Printing a state shows every vector completely and changes nothing",
 "Sending a state to an output stream prints every univalued state vector it holds exactly once, in the order they were added, each with its name, the kind of entity it is on, its number of values and all its current values in order, formatted as the stream is set up; printing one vector prints that vector alone. This holds after any history of adding, writing, copying, growing and clearing vectors of any printable type on meshes and tiles, also with multi-material vectors between them, and printing changes neither the state nor the stream's settings.",
 ["histories"],"all histories up to a depth of additions and changes, the output parsed and compared with the contents after each",
 "tests print to the screen, if at all, and look at nothing",
 ["src/statemanager/JaliState.cc","src/statemanager/JaliStateVector.h"],[("printing","src/statemanager/JaliState.cc: operator<<; src/statemanager/JaliStateVector.h: UniStateVector::print")])
p("C34","Answers follow changes: nothing asked before a change shows afterwards",
 "After any change - nodes moved and geometry updated, a set edited, made or renamed, a tile, set or region made late, a material added, extended or removed, state vectors added, written or assigned - every question about the mesh, its tiles, sets and regions and about the state is answered as by objects that went through the same changes and were never asked anything. What was asked before the change, or of another object that has since been destroyed, even one that lay at the same address, never shows in an answer.",
 ["histories"],"every question of the alphabet before and after every change (also between two changes), and of an object before and after it is replaced by another in the same storage",
 "tests ask after the last change only; a remembered answer shows when the very same question is repeated across a change or in recycled storage",
 [M,MH,"src/mesh/MeshTile.cc","src/mesh/MeshSet.cc","src/mesh/mesh_simple/Mesh_simple.cc","src/geometry/GeometricModel.cc","src/statemanager/JaliState.h"],[("whatever is computed once and kept","src/mesh/Mesh.hh: mutable members; src/mesh/Mesh.cc: find_meshset, get_set_size, get_set_entities; src/mesh/MeshTile.cc: get_set_entities; src/geometry/GeometricModel.cc: FindRegion; src/statemanager/JaliState.h: find, get, material queries")])
p("C35","No call touches memory outside of live objects or uses what was never written",
 "In any history of documented calls on meshes, tiles, mesh sets, states, state vectors, geometric models, regions and error messages - also when an object is given its own lists or itself, when handles to a mesh, its tiles, sets, state and vectors are let go of in any order, and when calls are refused - no call reads or writes memory outside of live objects, indexes a container outside of its bounds, uses an object that is gone, or performs an operation C++ leaves undefined, and no answer depends on memory that was never written.",
 ["histories","schedules"],"all histories up to a depth, all orders of letting go of handles and all questions across changes, every execution run with each memory access and arithmetic operation watched and with unwritten memory filled with recognisable values (all other checks run with the latter too)",
 "tests run unwatched: a read past an end or of freed memory mostly yields a plausible value",
 ["src/mesh","src/geometry","src/statemanager","src/error_handling"],[("objects and lists that refer to each other","src/mesh/MeshSet.cc: add_entities, rem_entities, set algebra; src/mesh/MeshTile.cc; src/statemanager/JaliState.h: rem_material, add_cells_to_material; src/statemanager/JaliStateVector.h")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
