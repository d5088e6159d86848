CXX_LIBS = "-lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel".split()
PROPS = {}
def P(id, programs, rule, bounds, **kw):
    for i, p in enumerate(programs): p.setdefault("name", p["src"].rsplit(".", 1)[0])
    PROPS[id] = dict(programs=programs, rule=rule, bounds=bounds, **kw)

P("C17", [dict(src="status.cc", opt="-O1")],
  rule="state = operation history (complete tree, no merging) resp. merged model state (deep search); every observer of the real object is compared with a map-based model in each",
  bounds=dict(quick="all histories of length <=5 over 17 operations (2 ids) and <=4 over 23 (3 ids); merged breadth-first search to depth 9; counters to 3000",
              thorough="all histories of length <=6 / <=5, merged search to depth 14"))
P("C01", [dict(src="contains.cc", opt="-O2")],
  rule="state = (geometry, constructor/relabelling, pose); transition = one membership query of a probe point; the oracle is the exact distance of the local lattice point to the denoted set, points closer than the tolerance to the decision boundary (but not in the set) are not judged",
  bounds=dict(quick="15 geometry classes, 29 rotations (24 lattice, 5 oblique) x 3 translations x 3 scales, 100-1000 probe points each", thorough="same space"))
P("C02", [dict(src="params.cc", opt="-O2")],
  rule="state = (geometry, constructor, pose); transition = one parameter value / query point; oracle: closed-form point/angle/projection in long double local coordinates, tolerance 1e-10 relative to the size plus rounding of the position",
  bounds=dict(quick="segments, lines, planes (5 constructors), circles, ellipses (5 axis pairs x 4 axis signs, 96 parameters), all 16x16 arcs, disks, cylinder surfaces under 29 rotations x 3 translations x 3 scales", thorough="4 scales"))
P("C03", [dict(src="measures.cc", opt="-O2")],
  rule="state = (geometry, pose); transition = one measure or feature query; oracle: exact formulas on the lattice coordinates (shoelace, signed areas, arc length by adaptive quadrature in long double), B-rep magnitudes against the same numbers",
  bounds=dict(quick="all simple 3-, 4-, 5- and 6-corner rings without collinear neighbours on the 3x3 lattice (each ring start and orientation), 162 boxes, ellipses/arcs/disks/cylinders under 29 rotations x 3 translations x 3 scales",
              thorough="7-corner rings, 4- and 5-corner rings on the 4x4 lattice, more poses for each ring"))
P("C05", [dict(src="algebra.cc", opt="-O2")],
  rule="state = first operand (all lattice vectors plus near-degenerate ones) resp. rotation axis; transition = one operation with a further operand; oracle: the same operation in long double, Rodrigues' formula for rotations",
  bounds=dict(quick="all ordered pairs over {-2..2}^3 plus 7 near-degenerate vectors, all triples with the first in {-1..1}^3, 126 axes x 73 angles x 125 vectors, 1441 angle conversions; 1d/2d counterparts", thorough="lattice {-3..3}^3"))
P("C04", [dict(src="brep.cc", opt="-O2")],
  rule="state = (geometry, constructor data order, pose); transition = one converted shape, probe point or bounding box side; oracle: exact distances, magnitudes, extents (support function) of the denoted set; overlap test: all pairs of lattice intervals",
  bounds=dict(quick="13 geometry kinds, arcs with 8 x 6 end points, polygons with every corner rotation/reversal, 29 rotations at the origin plus 3 rotations x 2 translations x 3 scales; all interval pairs over {0..5} in two directions x 3 directions x 3 scales", thorough="29 rotations x 3 translations x 3 scales"))
P("C06", [dict(src="linisect.cc", opt="-O2")],
  rule="state = (operand pair family, first operand, pose); transition = one intersection; oracle: exact parametric intersection of the lattice operands (kind and coordinates)",
  bounds=dict(quick="7 representative segments x all 702 directed lattice segments of {0..2}^2x{-1..1} in both orders; all pairs of 140 lattice planes, planes x lines; 4 disks and 4 quadrilaterals x all lines through a half-integer lattice with 35 directions; 7 poses", thorough="62 poses"))
P("C07", [dict(src="planarisect.cc", opt="-O2")],
  rule="state = (shape, shape, relative rotation, relative offset, common pose); transition = one intersection (each argument order, default and explicit tolerance); oracle: exact section of both shapes with the common line of their planes; near-touching placements (closer than 1e-5 but not exact) and tangential rim contacts in oblique poses are not judged",
  bounds=dict(quick="3 disks, 3 quadrilaterals, 3 polygons in all supported ordered pairs x 8 tilted rotations x 75 lattice offsets, 9 common poses x 18 offsets for every third pair; 4 shapes 30-100x larger with off-center contacts; parallel planes", thorough="150 offsets, all pairs under 67 poses"))
P("C08", [dict(src="cylisect.cc", opt="-O2")],
  rule="state = (cylinder radius, planar shape, relative rotation, relative offset, common pose); transition = one intersection (geometry/geometry, face variants, each argument order, default and explicit tolerance); oracle: the cylinder-plane curve restricted by all constraints, arcs by root isolation on the angular parameter; placements closer than 2e-4 to a change of topology (but not exact) and contacts in oblique poses are not judged",
  bounds=dict(quick="2 radii x 14 shapes x 10 rotations x 60 offsets (every 4th) in the unit pose, every 31st of the 10 posed copies; planar face pairs: 9 x 9 shapes x 10 rotations x 27 offsets (every 10th); coaxial lateral faces, spheres cut by planes", thorough="all placements, 68 poses"))
P("C14", [dict(src="constraints.cc", opt="-O2")],
  rule="state = (pair of entities, relative placement, pose) with exactly known angle, intersection magnitude, boundary distance and distance; transition = evaluate() under one combination of limits {unset, below, above the true value}^4 and options, both argument orders, bare and type-erased",
  bounds=dict(quick="81 limit combinations (reduced to 20 for most placements) x options x every 37th of 8100 placements of disks/quadrilaterals/polygons, faces (crossing, separated, coplanar), cylinder surfaces (elliptic, parallel, tangential)", thorough="every 3rd placement x all tilted rotations, full combinations"))
P("C15", [dict(src="consthist.cc", opt="-O2")],
  rule="state = operation history of setters/neglecters/options/copies (complete tree); evaluation of probe pairs compared with a fresh object holding the final settings; collections compared with the conjunction of the single evaluations",
  bounds=dict(quick="all histories <=3 over 19 operations, <=4 over the 6 operations of each pair of limits and over 9 tolerance/dimension operations; 33 settings x lists of up to 3 of 8 partners", thorough="depths 4 / 6 / 5; all 81 settings"))
P("C16", [dict(src="matrix.cc", opt="-O1")],
  rule="state = registration history (complete tree); in each, evaluate() for every candidate id x set contents x rejecting (constraints, set) pair is compared with the relation table; integration with real constraints and entity sets",
  bounds=dict(quick="3 ids: 13 registrations, depth 4; 2 ids: 5 registrations, depth 7; 15 relation sets x 8 contents x 14 candidates with real geometries", thorough="depth 6 / 9"))
P("C18", [dict(src="sampler.cc", opt="-O1")],
  rule="state = history of registrations, draws and strategy changes (complete tree) with tagged samplers; every draw is compared with the model of the cyclic order",
  bounds=dict(quick="all histories of length <=5 over 11 operations for 5 strategies; long cyclic draws for up to 5 samplers", thorough="length <=6"))
P("C19", [dict(src="entityset.cc", opt="-O1")],
  rule="state = insertion history (complete tree); contents, export and applyOnSet compared with a map model",
  bounds=dict(quick="all insertion histories to depth 5 over 2-3 types x 3 ids (bare and type-erased), 3 set types", thorough="depth 6"))
P("C10", [dict(src="angles.cc", opt="-O2")],
  rule="state = (pair of entities, dihedral angle, placement, pose); transition = one angle query (per intersection geometry, each argument order); oracle: acute angle of the exact tangent planes, minimum over the intersection",
  bounds=dict(quick="all pairs of 124 lattice plane normals x 10 poses; 81 shape pairs x 23 dihedral angles (0.1..179.9 degrees) x 4 placements x 10 poses (strided); cylinder surfaces, spheres and faces cut by planes", thorough="complete product, 68 poses"))
P("C11", [dict(src="distance.cc", opt="-O1")],
  rule="state = (geometry, geometry, relative rotation, relative offset, common pose); transition = one distance query (geometry/shape overloads, vectors and variants of geometries); oracle: certified GJK for convex pairs, minimisation of the exact point distance along curves, generator/rim/boundary decomposition for cylinder surfaces",
  bounds=dict(quick="18 geometries in all ordered pairs x 8 rotations x 120 offsets (every 67th), every 457th of 9 posed copies; points against 124 lines/segments x 343 points x 10 poses; 1d/2d", thorough="every 3rd / 31st"),
  assumptions=["a wrong minimum is attributed to the CAD kernel (known finding) only if BRepExtrema_DistShapeShape called directly on verified operands returns it"])
P("C12", [dict(src="boundary.cc", opt="-O2")],
  rule="state = (geometry, bounded entity, relative placement, pose) resp. (entity, pose); transition = one boundary distance query resp. one membership query of a probe point on, next to or off the entity/boundary for a tolerance; oracle: exact distances to bounding curves/surfaces",
  bounds=dict(quick="12 geometries x 14 bounded entities x 7 rotations x 100 offsets (points: all, others every 37th; every 23rd/311th of 9 posed copies); 18 entities x 10 poses x ~800-1500 probe points x 3 tolerances", thorough="every 3rd / 31st"),
  assumptions=["a wrong minimum is attributed to the CAD kernel (known finding) only if BRepExtrema_DistShapeShape called directly on verified operands returns it"])
P("C13", [dict(src="contained.cc", opt="-O1")],
  rule="state = (entity, domain, relative rotation, relative offset, pose); transition = one contained-magnitude query (geometry or shape entity, geometry or B-rep domain, type-erased); oracle: the measure of the part of the exact curve/surface that satisfies the domain's exact inequalities (root isolation along curves, adaptive integration over scan lines for surfaces)",
  bounds=dict(quick="13 entities x 4 domains x 7 rotations x 5x5x4 offsets (strided) x poses", thorough="denser strides"),
  assumptions=["a lost intersection is attributed to the CAD kernel (known finding) only if BRepAlgoAPI_Common called directly on verified operands loses it as well"])
P("C22", [dict(src="network.cc", opt="-O1"), dict(src="netgen.cc", opt="-O1")],
  rule="explicit-state model: the set of entities on a cubical lattice complex; a model state is the cell complex, the real builder runs on every model state and the built network is abstracted back to cells (conformance of every state); general position: exact planar arrangement of each entity cut by all others",
  bounds=dict(quick="all sets of up to 3 lattice rectangles/boxes out of representative families x poses x sub-domain variants; general position: tilted disks/quadrilaterals/polygons in pairs and triples", thorough="larger families, all subsets"))
P("C23", [dict(src="network.cc", opt="-O1", name="network23", flags=["-DPROP=23"]), dict(src="containednet.cc", opt="-O1", name="contained23", flags=["-DPROP=23"])],
  rule="explicit-state model as for C22/C25; judged are the index maps: the cells every fragment covers in the model have to belong to the entity (by order of insertion) and sub-domain the fragment is mapped to, every entity with cells inside its domain is represented, indices of different sub-networks do not collide in merged networks",
  bounds=dict(quick="as C22 and C25", thorough="as C22 and C25"))
P("C24", [dict(src="nethist.cc", opt="-O1")],
  rule="state = builder call history (complete tree over add/configure/clear/build operations); the network built after each history is compared with the one built by a fresh builder with the resulting configuration; rejected calls leave the state as it was",
  bounds=dict(quick="all histories to depth 4-5 over the operations of both builders", thorough="one level deeper"))
P("C25", [dict(src="containednet.cc", opt="-O1"), dict(src="netcont.cc", opt="-O1")],
  rule="explicit-state model of sub-domains and entities on a cubical complex (confined/unconfined, shared boundaries, union flag); the contained network built by the real code is abstracted back to cells and compared per sub-domain; curved domains: measure of entity fragments inside/outside against exact section measures",
  bounds=dict(quick="lattice boxes as sub-domains (disjoint, touching, nested) x entity sets x confinement flags; spheres, cylinders, boxes x disks/quadrilaterals", thorough="larger families"))
P("C09", [dict(src="present.cc", opt="-O1")],
  rule="state = pair of geometries; from it the complete graph of re-presentations (operand order, corner labellings, axis signs, reversed segments/faces, origin shifts, geometry/face/cylinder presentation, rigid motions and scalings) is walked and every call has to give the same point set (canonicalised; parts compared by total measure and centroid)",
  bounds=dict(quick="lattice segments/lines/planes, 9 planar shapes in all ordered pairs, faces and cylinder surfaces x rotations x offsets (strided), all labellings of each operand, 12 poses", thorough="10-15 times denser strides"),
  assumptions=["tangential contacts are compared in lattice poses only"])
P("C20", [dict(src="pointsample.cc", opt="-O1"), dict(src="pysampling.py", name="pypoints", args=["--prop", "20"])],
  rule="state = (domain, pose); transition = one draw tuple (interval ends, interior fractions) or sequence of draw tuples fed through scripted distributions; oracle: the point the coordinates denote, domain membership; uniform samplers: every output tuple of a scripted random engine on an equidistant grid is enumerated and has to hit every cell of equal volume exactly once",
  bounds=dict(quick="174 cylinder/hollow cylinder poses x 6 sizes, 432 boxes; 9^3 draw tuples each, 145 sequences of 4 calls, 6^3 engine outputs; the same for the Python samplers (378 domains)", thorough="more poses"))
P("C26", [dict(src="netio.cc", opt="-O1")],
  rule="state = network (explicit cubical model as for C22/C25, merged, contained, curved) x output options; the written .brep/.geo files are parsed with an independent reader and compared with the network: geometry, numbering, physical groups, mesh sizes, merge target",
  bounds=dict(quick="all sets of up to 4 lattice rectangles, reversed faces, contained/merged networks with 1-3 sub-domains (strided), curved entities", thorough="40 times denser"))
P("C27", [dict(src="boolops.cc", opt="-O1")],
  rule="state = pair (list) of shapes; transition = one boolean operation; oracle: exact set algebra on lattice cell complexes; operation sequences",
  bounds=dict(quick="lattice boxes, rectangles, segments in all relative placements (strided) x poses", thorough="denser"))
P("C21", [dict(src="geomsample.cc", opt="-O1"), dict(src="pysampling.py", name="pygeometries", args=["--prop", "21"])],
  rule="state = prefix of the draws; transition = one complete sequence of draws (accepted and rejected values of every distribution, interval draws through a scripted random engine); oracle: exact size, center, orientation, convexity, simplicity of the returned geometry, termination (error or geometry)",
  bounds=dict(quick="disks: 9^3 angles x sizes, up to 3 rejected draws per axis; polygons: all draw tuples over 9/5/4/3-letter alphabets for 3/4/5/6 corners, equidistant permutations to 24 corners, 9x9 angles, 13x14x14 rejection patterns up to 400 rejections; deprecated sampler: all sequences of 5 lengths up to 6 draws; Python alike (strided)", thorough="unstrided, 7 corners, 7 draws"))
P("C28", [dict(src="pygeometry.py", name="pygeometry")],
  rule="state = (geometry or shape, pose) resp. pair of operands in a relative placement; transition = one call of the Python API (algebra, accessors, contains, magnitudes, tolerances, shapes, distances, intersections, contained magnitudes, boolean operations); oracle: independent reference geometry (pyref.py)",
  bounds=dict(quick="all sequences of up to 3 vector operations, 34 geometries x 6-18 poses x probe points, all pairs of 18 geometries x offsets (strided)", thorough="more poses, denser offsets"),
  assumptions=["operations that C++ does not implement (coplanar faces, non-convex polygons) are judged through shapes only"])
P("C29", [dict(src="pynetwork.py", name="pynetwork")],
  rule="(a) state = pair of entities or of lists of entities x constraint set, resp. history of setter calls: verdict against the exact relation (intersection segment, angle, distance); (b) state = history of registrations in the matrix, evaluated for every id and every collection of entity sets against a relation model; (c) state = history of builder calls; every network built on the way is written after the builder is gone, read back and abstracted to cells of a lattice model",
  bounds=dict(quick="29 entities (all types) in all ordered pairs x 13 constraint sets x 3 poses; all lists up to length 2 of 7 entities, lists of 3 (strided); setter histories to depth 3 (depth 3: every 4th); registration histories to depth 2 over 30 registrations, depth 3 every 41st, ids as int and Id; builder histories to depth 3 over 13 calls for both builders", thorough="depth 4 (strided), longer lists, more poses"),
  assumptions=["quadrilateral/polygon intersections are not implemented (in C++ either)", "evaluation for an id without relation is not judged (documented difference)"])
P("C30", [dict(src="purity.cc", opt="-O2"), dict(src="purity.cc", name="puritysan", opt="-O1", flags=["-DSAN=1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]), dict(src="pypurity.py", name="pypurity")],
  rule="state = history of queries, constructions, destructions, copies, assignments, self-assignments, moves, swaps, held references and translations of parts over two objects of a kind (complete tree); after each history every query of both objects has to give the answer of an object on which nothing else was ever done, computed in a process of its own; Python: histories of accessor calls, in-place changes of what they returned or of the constructor arguments, with the parent destroyed",
  bounds=dict(quick="15 kinds x 3 values: complete trees over all queries and 15 life-cycle operations to depth 3 (4 for kinds with up to 12 queries), life-cycle operations to depth 5; the same one level less deep under address/undefined-behaviour sanitizers; 22 Python classes: all histories to depth 2", thorough="one level deeper"))
P("C31", [dict(src="refusal.cc", opt="-O1")],
  rule="(a) state = (operation, ordered pair of geometry kinds, pose) resp. constructor arguments or index: refused exactly if not in the table of offered operations; (b) state = (lattice ring, pose), transition = one operation with it: concave rings are refused or served with the exact parts; (c) state = history of builder operations, valid and invalid ones mixed: exactly the invalid ones are refused and the built network equals that of the accepted operations alone; (d) writers on networks of every dimension: refused without leaving a file",
  bounds=dict(quick="21 x 21 kinds x 3 operations x 2 poses; all simple 4-rings and every 5th 5-ring of the 3x3 lattice; builder histories over 14 operations complete to depth 3, every 7th of depth 4, for both builders; 4096 boxes", thorough="all 5-rings, every line; histories complete to depth 5; 8 poses"),
  assumptions=["coplanar pairs of faces (documented as not implemented) are not in the table", "sections that end in the seam vertex of a face are not judged (lost by the kernel)"])
P("C32", [dict(src="tolerance.cc", opt="-O1")],
  rule="state = (geometry, size, pose, presentation), transition = one query made without a tolerance for one base point displaced in one of 26 directions by 0, 1e-10, 1e-4, 1e-3, 0.1 or 1 extents (or one pair of segments, boxes, a line and a planar geometry with such a gap); oracle: exact distance in local coordinates - at most 1.8e-10 extents: accepted, at least 4e-5 extents: rejected; the default tolerance relative to the extent must be the same in all states of a geometry",
  bounds=dict(quick="38 geometries x 36 poses (9 sizes from 1e-4 to 1e4, 4 orientations), about 8 million queries", thorough="29 orientations x 2 translations x 9 sizes and all corner orders"),
  assumptions=["queries answered by the CAD kernel are judged for extents from 1e-2 on, and not for points of a face closer to its boundary than 1e-4 extents", "displacements below 1e-6 (absolute) are not judged where planes or the kernel decide"])
