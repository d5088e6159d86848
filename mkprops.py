#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
G="frackit/geometry/"; I="frackit/intersection/"; N="frackit/entitynetwork/"; S="frackit/sampling/"

prop("C01","Point membership queries answer exactly the geometric definition",
 """For every geometry (segment, line, plane, circle, ellipse, ellipse arc, triangle, quadrilateral, convex polygon, disk,
 box, cylinder, cylinder surface, hollow cylinder, sphere) and every point, contains() returns true exactly when the point
 belongs to the closed point set the geometry denotes, up to the distance tolerance in force (default or passed explicitly).
 The answer does not depend on position, orientation, size or the order in which equivalent defining data are given.""",
 ["inputs"],"all geometries x all poses (lattice rotations, oblique rotations, translations, scales) x all points: interior, boundary, vertices, edges, outside in and out of plane, just inside / outside the tolerance",
 "test_disk, test_polygon, test_triangle ... check a handful of points of axis-aligned unit geometries at a few scales; points in other octants, oblique planes, obtuse corners, full arcs or explicit tolerances are not reached.",
 [G+f for f in ("segment.hh","line.hh","plane.hh","circle.hh","ellipse.hh","ellipsearc.hh","triangle.hh","quadrilateral.hh","polygon.hh","disk.hh","box.hh","cylinder.hh","cylindersurface.hh","hollowcylinder.hh","sphere.hh")],
 [("contains() overloads per geometry class","frackit/geometry/*.hh"),("default tolerances",'frackit/precision/defaultepsilon.hh')],
 observe=["return value of contains(p), contains(p, eps), contains(p, checkIfOnPlane)"])

prop("C02","Parametrisations stay on the geometry and invert each other",
 """For segments, circles, ellipses, ellipse arcs, disks and cylinder surfaces/cylinders, every parameter value in the admissible range yields a
 point that belongs to the geometry and is the point the documented parametrisation denotes; querying the angle or parameter of such a point gives the
 original parameter back (modulo the period); and projections onto lines and planes return the nearest point, which lies on the target and is a fixed point of the projection.""",
 ["inputs"],"all geometries, poses and parameters on an angular / interval grid that includes 0, 1, quadrant boundaries, the wrap-around and both arc end points",
 "test_circle/test_ellipsearc/test_segment evaluate a few parameters in one pose; wrap-around arcs, quadrant changes and non-unit axes are hardly combined.",
 [G+f for f in ("segment.hh","circle.hh","ellipse.hh","ellipsearc.hh","disk.hh","ellipticalgeometry.hh","line.hh","plane.hh","cylinder.hh","cylindersurface.hh")],
 [("getPoint / getPointFromAngle / getAngle / getParam / projection","frackit/geometry/*.hh")],
 observe=["returned points, angles and parameters"])

prop("C03","Measures, centers and bounding features agree with the geometry",
 """For every geometry the reported length, area, volume, center, normals, axes, supporting plane/line, corners, edges and bounding
 faces/curves are mutually consistent and equal those of the denoted point set (e.g. box corners, edges and faces bound the box, polygon center and area are exact,
 cylinder and hollow cylinder bounding surfaces have the stated radii, positions and outward orientation).
 The generic magnitude functions return the same number for a geometry and for its B-rep shape, and all measures are invariant under rigid motion and scale with the proper power.""",
 ["inputs"],"all geometries x lattice and oblique poses x scales; every index of corner/edge/face accessors",
 "tests check a few unit geometries with hand-computed numbers; not every accessor, index, orientation or corner order is visited.",
 [G+f for f in ("box.hh","cylinder.hh","hollowcylinder.hh","cylindersurface.hh","triangle.hh","quadrilateral.hh","polygon.hh","triangulation.hh","disk.hh","sphere.hh","segment.hh")]+["frackit/magnitude/"+f for f in ("length.hh","area.hh","volume.hh","magnitude.hh")],
 [("area()/volume()/center()/corner()/edge()/face() accessors","frackit/geometry/*.hh"),("computeLength/Area/Volume/Magnitude","frackit/magnitude/*.hh")],
 observe=["returned numbers, points and sub-geometries"])

prop("C04","B-rep conversion and bounding boxes preserve the point set",
 """Converting any geometry to its B-rep shape yields a valid shape that denotes the same point set: same magnitude, same vertices, edges and faces, distance zero exactly for
 the points the geometry contains; converting recognised shapes back gives the original geometry. The bounding box of a geometry
 encloses the geometry and is tight, and box overlap/emptiness tests never separate boxes that share a point.""",
 ["inputs"],"all convertible geometries x poses x scales x probe points; all pairs of lattice boxes (nested, touching in face/edge/corner, disjoint in each axis)",
 "shape conversion is only exercised indirectly with one or two geometries; bounding boxes are tested for three hand-written cases.",
 ["frackit/occ/breputilities.hh","frackit/occ/geomutilities.hh","frackit/occ/gputilities.hh","frackit/geometryutilities/getboundingbox.hh","frackit/geometry/boundingbox.hh","frackit/intersection/bboxintersection.hh"],
 [("OCCUtilities::getShape and friends","frackit/occ/breputilities.hh"),("getBoundingBox","frackit/geometryutilities/getboundingbox.hh"),("doIntersect / intervalsOverlap","frackit/intersection/bboxintersection.hh")],
 observe=["shapes (via OpenCASCADE queries), BoundingBox coordinates, overlap booleans"])

prop("C05","Vector, direction and rotation operations obey Euclidean algebra",
 """Point/vector/direction arithmetic in one, two and three dimensions, dot/cross/triple products, orientation (right-hand) and parallelism tests, angle and radians/degrees conversion,
 orthogonal vector/basis construction and rotation about an axis return the exact Euclidean result for every operand; rotating by an angle preserves lengths and the axis component, composes additively,
 and rotating many vectors at once equals rotating each one; equality tests respect the tolerance passed.""",
 ["inputs"],"all operand tuples over a small integer lattice in every octant, all axis directions and multiples of 15 degrees incl. negative and full turns",
 "test_point/test_direction check single operands; the sign and octant combinations that distinguish implementations are not enumerated.",
 [G+"point.hh",G+"vector.hh",G+"direction.hh","frackit/common/math.hh"],
 [("operators, crossProduct, boxProduct, rotate, isRightHandSystem, makeOrthogonalVector","frackit/common/math.hh, frackit/geometry/vector.hh")],
 observe=["returned vectors/points/scalars"])

prop("C06","Intersections of segments, lines and planes are exact",
 """Intersecting two segments, two planes, a plane and a line, or a line with a disk or quadrilateral returns exactly the set-theoretic intersection, in the right kind:
 empty when disjoint, a point when they cross or touch in one point, a segment/line/plane when they overlap - with coordinates that lie on both operands.""",
 ["inputs"],"all pairs over lattice end points/normals/positions incl. parallel, collinear overlapping/nested/disjoint, end-to-end, T- and X-crossings, skew, tangential, coplanar; several scales and oblique poses; default and explicit tolerance",
 "the intersection tests check a few hand-drawn configurations per pair; degenerate contacts in other orientations or argument orders are not reached.",
 [I+"intersect.hh"]+[I+"algorithms/"+f for f in ("algo_segment_segment.hh","algo_plane_plane.hh","algo_plane_line.hh","algo_disk_line.hh","algo_quadrilateral_line.hh","algo_planargeom_line.hh")],
 [("intersect() overloads","frackit/intersection/intersect.hh")],
 observe=["variant alternative and coordinates of the result"])

prop("C07","Intersections of planar entities equal the set-theoretic intersection",
 """Intersecting any two non-coplanar disks, convex quadrilaterals or convex polygons (in either order) returns exactly the common point set: empty, one point, or one segment with
 the right end points, each lying on both operands, for every relative placement - crossing, partially overlapping, touching at edge or vertex, or separated.""",
 ["inputs"],"all pairs of {disk, quadrilateral, polygon} x relative lattice placements (perpendicular and oblique) x scales x poses; tolerance default and explicit",
 "tests enumerate about five placements per pair of types, all axis aligned; partial overlaps on either side, vertex/edge contacts and oblique planes are mostly untested.",
 [I+"algorithms/"+f for f in ("algo_disk_disk.hh","algo_quadrilateral_disk.hh","algo_polygon_disk.hh","algo_quadrilateral_quadrilateral.hh","algo_polygon_polygon.hh","algo_planargeom_planargeom.hh","algo_planargeom_line.hh","algo_segment_segment.hh")]+[I+"intersect.hh"],
 [("intersect_planarGeometry_planarGeometry","frackit/intersection/algorithms/algo_planargeom_planargeom.hh")],
 observe=["variant alternative and coordinates of the result"])

prop("C08","Cylinder-surface and face intersections return all and only common parts",
 """Intersecting a cylinder surface or a general planar/curved face with a disk, quadrilateral, polygon or face returns exactly the parts both share - points, segments, ellipse arcs or full ellipses, edges, faces -
 with the right number of parts, total length/area and position; no part is missed, duplicated or outside one of the operands.""",
 ["inputs"],"cylinder surfaces and faces x planar entities in all lattice placements (cutting fully, partially, through one side, both ends, parallel to the axis, tangent, inside, outside) x scales x poses",
 "tests check about ten placements with one cylinder; most partial cuts and the multi-part results are not covered.",
 [I+"algorithms/"+f for f in ("algo_cylsurface_disk.hh","algo_cylsurface_polygon.hh","algo_cylsurface_quadrilateral.hh","algo_cylsurface_planargeom.hh","algo_cylsurface_face.hh","algo_face_face_3d.hh")]+["frackit/occ/breputilities.hh"],
 [("intersect_cylinderSurface_* / intersect_face_*","frackit/intersection/algorithms/")],
 observe=["vector of variants: kinds, count, coordinates, lengths/areas"])

prop("C09","Intersection results do not depend on how operands are presented",
 """Swapping the arguments, relabelling equivalent defining data (corner rotation or reversal, segment direction, flipped normals, disk axis sign), copying, or
 moving/scaling both operands by the same similarity transform yields the same intersection (the transformed one, for moves), the same kind and the same parts.""",
 ["inputs"],"all supported ordered operand pairs x all relabelings x a generating set of rigid motions and scalings",
 "the tests use one presentation per configuration.",
 [I+"intersect.hh",I+"intersectiontraits.hh"],
 [("argument-swapping overloads of intersect()","frackit/intersection/intersect.hh")],
 observe=["pairs of intersection results"])

prop("C10","Intersection angles are the true angle between the intersecting entities",
 """The intersection angle reported for two intersecting entities (plane, disk, quadrilateral, polygon, face, cylinder surface) and any of their intersection geometries is the acute angle in [0, pi/2] between
 their tangent planes along the intersection (the smallest one over the intersection, where it varies; along arcs and edges it is evaluated at a fixed number of positions including the ends); it is symmetric in the entities and invariant under rigid motion and scaling.""",
 ["inputs"],"all entity pairs x dihedral angles on a grid x poses x intersection kinds (point, segment, arc, edge, several parts)",
 "test_intersectionangle checks a sweep for a single pair and fails at one scale on the pinned toolchain.",
 [I+"intersectionangle.hh"],
 [("IntersectionAngle functor","frackit/intersection/intersectionangle.hh")],
 observe=["returned angle"])

prop("C11","Distances are the exact minimum Euclidean distance",
 """computeDistance between points, segments, lines, planar entities, solids and generic shapes, and between one geometry and several, is the minimum Euclidean distance of the two point sets: non-negative, symmetric, zero exactly
 if they share a point, invariant under rigid motion and proportional to scale.""",
 ["inputs"],"all supported pairs over lattice placements (face/edge/corner closest features, overlapping, containing), poses and scales",
 "test_distance_* check a few axis-aligned offsets; closest feature switches are not enumerated.",
 ["frackit/distance/distance.hh","frackit/distance/pointongeometry.hh"],
 [("computeDistance overloads","frackit/distance/distance.hh")],
 observe=["returned distance"])

prop("C12","Boundary distance and boundary membership are exact",
 """The distance of a point or entity to the boundary of a disk, quadrilateral, polygon, face, cylinder surface or box is the minimum distance to its bounding curve/surface (not to its interior; for faces and solids the boundary is the outer wire / outer shell), and a point is reported to
 lie on a geometry or on its boundary exactly when it does, within the tolerance passed.""",
 ["inputs"],"all boundary-owning geometries x interior, boundary, vertex, near-tolerance and exterior points and segments x poses x scales",
 "test_distancetoboundary checks a few offsets per geometry; boundary membership is only exercised through constraints tests.",
 ["frackit/distance/distancetoboundary.hh","frackit/distance/pointonboundary.hh","frackit/distance/pointongeometry.hh"],
 [("computeDistanceToBoundary, pointOnGeometryBoundary, pointOnGeometry","frackit/distance/*.hh")],
 observe=["returned distance / boolean"])

prop("C13","Contained magnitude is the measure of the part inside the domain",
 """The contained magnitude of an entity in a domain equals the measure of the set intersection of both: the full magnitude if inside, zero if outside, and additive over a
 partition of the domain, for every supported entity and domain including type-erased entities and B-rep domains.""",
 ["inputs"],"all entity kinds x domains (box, cylinder, hollow cylinder, sphere, B-rep solid) x lattice placements incl. partially inside, touching, fully outside, coplanar with a face",
 "example/test code evaluates it inside sampling loops without checking the number.",
 ["frackit/magnitude/containedmagnitude.hh","frackit/geometryutilities/applyongeometry.hh"],
 [("computeContainedMagnitude","frackit/magnitude/containedmagnitude.hh")],
 observe=["returned magnitude"])

prop("C14","Constraints accept a pair exactly when every active limit is met",
 """Evaluating network constraints for two entities returns true exactly if no active limit is violated: minimum distance for non-intersecting pairs, and for intersecting pairs minimum intersection angle,
 minimum intersection magnitude and minimum distance of the intersection to the entity boundaries, plus (as soon as any limit is active) rejection of intersections of the entities' own dimension unless allowed. Ends of an intersection that lie on the boundary of an entity do not count for the boundary distance, and intersection
 points have no magnitude limit. Limits that are not set never influence the outcome; without any limit every pair is accepted.""",
 ["inputs","configurations"],"all on/off combinations of limits x values just below and above the true quantity x pair configurations (apart, crossing, touching, coplanar overlap) x entity types",
 "test_constraints_* set one limit at a time on a handful of pairs.",
 [N+"constraints.hh",N+"constraints_impl/admissibledimension.hh",N+"constraints_impl/admissiblemagnitude.hh",N+"constraints_impl/distancetoboundary.hh"],
 [("EntityNetworkConstraints::evaluate","frackit/entitynetwork/constraints.hh")],
 observe=["evaluate() result"])

prop("C15","Constraint objects depend only on their current settings",
 """After any history of setting, neglecting, re-setting limits, tolerance and dimension options (and copying the object), evaluation equals that of a freshly created object with the final settings.
 Evaluating against collections (lists, type-erased entities, two lists) equals the conjunction of the pairwise evaluations, is symmetric in its arguments, and is true for empty collections.""",
 ["histories","inputs"],"all sequences of setter calls up to a depth x probe pairs x all small collections",
 "tests create one object and call each setter once.",
 [N+"constraints.hh"],
 [("setMin*/neglect*/setIntersectionEpsilon/allowEquiDimensionalIntersections","frackit/entitynetwork/constraints.hh")],
 state=[("limit values and on/off flags","current configuration","EntityNetworkConstraints members")],
 observe=["evaluate() result after each history"])

prop("C16","Constraints matrix enforces exactly the registered relations",
 """After any sequence of registrations, evaluating a candidate of a given set accepts it exactly if it satisfies, for every relation registered from its set id to another id,
 the registered constraints against every entity of that other set; unrelated sets and missing sets never matter, registering an already registered ordered pair is an error that leaves earlier relations intact. (Candidates of a set without any registered relation are an error, as documented.)""",
 ["histories","inputs"],"all registration sequences over 3 ids and several constraint objects up to a depth (single pairs and lists, self-relations, one- and two-directional) x all contents of the sets over a small entity alphabet x candidate ids",
 "examples register two symmetric relations; no unit test of the matrix class exists.",
 [N+"constraintsmatrix.hh",N+"multigeometryentityset.hh","python/frackit/entitynetwork/__init__.py"],
 [("addConstraints / evaluate","frackit/entitynetwork/constraintsmatrix.hh")],
 state=[("relation table","constraints index per ordered id pair","EntityNetworkConstraintsMatrix")],
 observe=["evaluate() result, exceptions"])

prop("C17","Sampling status counters follow their specification for every history",
 """For every sequence of target definitions, sample registrations, rejections and resets, the status reports per-id and overall counts equal to the number of registrations since
 the last relevant reset, reports an id finished exactly when its count has reached its target and everything finished exactly when all ids with targets have, and printing the status never fails nor changes it.""",
 ["histories"],"all operation sequences over 2-3 ids and small targets (incl. zero, redefined, missing) up to a depth",
 "test_status checks one linear scenario.",
 [S+"status.hh"],
 [("SamplingStatus","frackit/sampling/status.hh")],
 state=[("count_/targetCount_/rejectedCount_","progress counters","frackit/sampling/status.hh")],
 observe=["finished(), getCount(), printed output"])

prop("C18","Multi-geometry sampling draws from the selected sampler and strategy order",
 """A multi-geometry sampler returns, for each draw, an entity of the sampler whose id it reports, follows the configured strategy (sequential: registered ids in cyclic order), never loses or swaps registered samplers, and rejects
 duplicate ids and sampling without samplers, for every history of registrations, strategy changes and draws, including virtual use through the base interface.""",
 ["histories"],"all sequences of addGeometrySampler/draw over 3 ids and several geometry types up to a depth",
 "examples draw in a loop; no test checks order, id reporting or duplicate registration.",
 [S+"multigeometrysampler.hh",S+"samplingstrategy.hh",S+"sequentialsamplingstrategy.hh",S+"geometrysampler.hh"],
 [("MultiGeometrySampler, SequentialSamplingStrategy","frackit/sampling/")],
 state=[("registered ids and cursor","next id in cycle","SequentialSamplingStrategy")],
 observe=["returned geometry, reported id, exceptions"])

prop("C19","Multi-geometry entity sets keep exactly what was inserted, per id",
 """For every history of insertions a multi-geometry entity set holds exactly the inserted entities of each type under their id, in insertion order; export to network builders and constraint evaluation over the set visit each entity exactly once
 with its own type, and ids never mix.""",
 ["histories"],"all insertion sequences over 3 entity types and 2-3 ids up to a depth, then export/evaluate operations",
 "no unit test of the class exists.",
 [N+"multigeometryentityset.hh","frackit/geometryutilities/applyongeometry.hh"],
 [("MultiGeometryEntitySet","frackit/entitynetwork/multigeometryentityset.hh")],
 observe=["get(), size, exported networks, evaluate results"])

prop("C20","Point samplers only return points of their domain, for every random draw",
 """Whatever values the underlying random distributions return within their ranges, point samplers (box, cylinder, hollow cylinder; default-uniform and user-defined; C++ and Python) return the point those coordinates denote, which belongs to the
 domain for every position, orientation and size; every part of the domain is reachable, and uniform samplers give equal volumes equal probability.""",
 ["inputs","configurations"],"all combinations of distribution outcomes on a grid incl. both interval ends x domains x poses x scales",
 "test_pointsampling draws random points for a few domains and checks containment only.",
 [S+"boxpointsampler.hh",S+"cylinderpointsampler.hh",S+"makepointsampler.hh",S+"makeuniformpointsampler.hh",S+"uniformpointsamplertraits.hh","python/frackit/sampling/__init__.py"],
 [("operator() of point samplers","frackit/sampling/*pointsampler.hh")],
 observe=["returned points as function of the draws"])

prop("C21","Geometry samplers return well-formed geometries for every random draw",
 """Whatever values the distributions return, disk, quadrilateral and polygon samplers terminate with either an error or a valid geometry of the requested kind: centered at the drawn point, with the drawn sizes (axes positive, major not smaller than minor; number of corners as drawn),
 planar, convex, simple and oriented according to the drawn angles.""",
 ["inputs","configurations"],"all sequences of distribution outcomes over small value grids incl. rejected (too small, negative, zero) values up to a deviation bound",
 "sampling tests draw random geometries with benign distributions and only check that nothing throws.",
 [S+"disksampler.hh",S+"quadrilateralsampler.hh",S+"polygonsampler.hh","python/frackit/sampling/__init__.py"],
 [("operator() of geometry samplers","frackit/sampling/*sampler.hh")],
 observe=["returned geometry as function of the draws, termination"])

prop("C22","Entity networks fragment the entities exactly at their intersections",
 """Building an entity network from any set of entities yields fragments whose union is the union of the entities (restricted to the confining sub-domains), that do not overlap each other, whose measures sum up exactly, and that
 intersect each other only along shared edges/vertices.""",
 ["inputs"],"all sets of up to 3-4 entities (disks, quadrilaterals, polygons, faces) from a lattice catalogue: disjoint, crossing, touching, triple crossing, identical",
 "tests/examples build one or two networks and only write them to file.",
 [N+"networkbuilder.hh",N+"entitynetwork.hh","frackit/occ/breputilities.hh"],
 [("EntityNetworkBuilder::build, OCCUtilities::fragment","frackit/entitynetwork/networkbuilder.hh")],
 observe=["entityFragments() shapes: areas, topology"])

prop("C23","Network fragments are traceable to the entity and sub-domain they stem from",
 """In every built network each fragment is mapped to exactly the entity (in order of insertion) and sub-domain it is a part of; fragments of different entities never share an index, all fragments of an entity do, and every entity that is inside its domain is represented
 (a part that several entities have in common is attributed to one of them).
 In networks that carry no sub-domain information the index is unique over all sub-networks; with a single sub-network it is the order of insertion, starting from 1.""",
 ["inputs","histories"],"all insertion orders and assignments of up to 4 entities to up to 3 sub-domains",
 "no test inspects the fragment-to-entity maps.",
 [N+"networkbuilder.hh",N+"entitynetwork.hh",N+"containedentitynetwork.hh"],
 [("entityFragmentsIndexMap","frackit/entitynetwork/networkbuilder.hh")],
 observe=["index maps of EntityNetwork / ContainedEntityNetwork"])

prop("C24","Network builders give the same network for every equivalent history",
 """The network a builder returns depends only on the sub-domains, entities and options currently set: building twice, building in between additions, clearing and re-filling, interleaving option changes or
 reordering independent insertions gives the same network as a fresh builder with the same contents and options, and invalid requests (sub-domain ids already taken, geometries of mismatching dimension, requesting a network that has not been built) fail without side effects.
 clear() removes all sub-domains, entities and the built network; the confinement option persists until it is changed; a default tolerance always follows the current contents.""",
 ["histories"],"all operation sequences (add entity / sub-domain / options / epsilon / clear / build) over a small alphabet up to a depth",
 "tests use each builder once.",
 [N+"networkbuilder.hh"],
 [("EntityNetworkBuilderBase members and clear()","frackit/entitynetwork/networkbuilder.hh")],
 state=[("sub-domain and entity maps, id lists, epsilon","what has been inserted","EntityNetworkBuilderBase")],
 observe=["canonical description of the returned network, exceptions"])

prop("C25","Contained networks partition the domain and embed the confined entities",
 """In a contained network the sub-domain fragments partition each sub-domain exactly (volumes add up, no overlaps, shared faces between neighbours), and every entity fragment lies inside the sub-domain it was assigned to,
 conforms to the sub-domain's boundaries, and nothing of a confined entity survives outside or is lost inside.""",
 ["inputs","configurations"],"1-3 sub-domains (boxes, cylinders, B-rep; nested, adjacent, overlapping) x confining/non-confining x confine-to-union on/off x entity placements (inside, cutting fully/partially, outside)",
 "tests build one contained network and write it.",
 [N+"networkbuilder.hh",N+"containedentitynetwork.hh"],
 [("ContainedEntityNetworkBuilder::build","frackit/entitynetwork/networkbuilder.hh")],
 observe=["subDomainFragments(), subDomainEntityFragments()"])

prop("C26","Written network files contain the network completely and consistently",
 """The files written for a network reproduce it: reading the geometry file back yields the same fragments, and the mesh file assigns every domain, entity and entity-intersection fragment to exactly the physical group it belongs to,
 with valid tags, no omissions or duplicates, and the requested mesh sizes.""",
 ["inputs"],"networks from the enumerated catalogue (contained and not; 1-3 sub-domains; with/without intersections; several mesh size arguments)",
 "test_write_gmsh only checks that writing does not throw, and fails on the pinned toolchain.",
 ["frackit/io/brepwriter.hh","frackit/io/gmshwriter.hh"],
 [("BRepWriter, GmshWriter","frackit/io/")],
 observe=["contents of the .brep and .geo files"])

prop("C27","Boolean shape operations implement set algebra",
 """Cut, intersection, union and fragmentation of shapes, translation, sub-shape extraction and overlap-edge queries return the exact set-theoretic result: volumes/areas/lengths satisfy
 inclusion-exclusion, results are independent of operand order where the operation is commutative, operands are not modified, and extracted sub-shapes are complete and of the requested kind.""",
 ["inputs"],"all pairs/triples from a lattice catalogue of boxes and planar faces: disjoint, touching in face/edge/corner, overlapping, nested, identical; default and explicit tolerance",
 "no unit test exercises these helpers directly.",
 ["frackit/occ/breputilities.hh"],
 [("OCCUtilities::cut/intersect/fuse/fragment/translate/get*","frackit/occ/breputilities.hh")],
 observe=["resulting shapes via OpenCASCADE properties"])

prop("C28","The Python geometry API computes what the C++ API computes",
 """For every geometry, query and pair exposed in Python - construction, containment, measures, intersection, distance, distance to boundary, tolerance, bounding box, shape conversion - the Python call
 returns the same answer as its C++ counterpart and the geometric definition, for bare geometries and wrapped shapes alike.""",
 ["inputs"],"all exposed functions x lattice configurations of their operands",
 "the only Python tests are the example scripts, which check nothing numerically.",
 ["frackit/python/geometry/distance.hh","frackit/python/geometry/distancetoboundary.hh","frackit/python/geometry/intersect.hh","frackit/python/geometry/magnitude.hh","frackit/python/occutilities/breputilities.hh","python/frackit/geometry/__init__.py","python/frackit/occutilities/__init__.py"],
 [("pybind11 registrations and Python helpers","frackit/python, python/frackit")],
 observe=["Python return values"])

prop("C29","Python network classes evaluate lists and relations like the C++ ones",
 """The Python constraints, constraints matrix and network builder classes behave as their C++ counterparts for single entities, lists and mixed collections of every entity type, for every registration and insertion
 history: list evaluation is the conjunction over the members, relations are honoured in the registered direction, and adding lists equals adding each member.""",
 ["histories","inputs"],"all small lists over an entity alphabet, all registration sequences over 3 ids up to a depth",
 "examples only call evaluate(list, entity) and symmetric relations.",
 ["python/frackit/entitynetwork/__init__.py","frackit/python/entitynetwork/constraints.hh","frackit/python/entitynetwork/networkbuilder.hh"],
 [("EntityNetworkConstraints.evaluate, EntityNetworkConstraintsMatrix","python/frackit/entitynetwork/__init__.py")],
 observe=["Python return values, exceptions"])

prop("C30","Queries are pure: answers do not depend on query history or copying",
 """Geometry, box, cylinder and hollow-cylinder queries, including lazily created sub-geometries and default tolerances, return the same answers whatever queries were made before, on copies and assigned objects as on originals
 (also after the original is destroyed or reassigned), and translating one object never changes another.""",
 ["histories"],"all sequences of queries/copies/assignments/moves over two objects up to a depth",
 "tests query each freshly made object in one fixed order.",
 [G+f for f in ("box.hh","cylinder.hh","hollowcylinder.hh","cylindersurface.hh","disk.hh","ellipsearc.hh","plane.hh","polygon.hh","quadrilateral.hh","triangle.hh","sphere.hh")],
 [("lazily evaluated members","frackit/geometry/*.hh")],
 state=[("cached sub-geometries","unique_ptr / optional members","frackit/geometry/*.hh")],
 observe=["query results after each history"])

prop("C31","Invalid or unsupported requests are refused and change nothing",
 """A request outside of what the library offers - construction from invalid arguments (inverted boxes, too few corners, elliptic cylinder bases, inverted radii), indices out of range, points off the curve, operations not implemented for the given kinds of geometry, concave polygons or quadrilaterals where
 only convex ones are supported, results that the return type can not hold, entities or sub-domains of unfitting dimension or taken id, entities without shape, networks of unsupported dimension handed to a writer - raises an exception instead of returning a wrong answer, leaves the network builder exactly as if it had not been made and writes no file; valid requests of the same kinds are served.""",
 ["inputs","histories"],"all ordered pairs of 21 kinds of geometry per operation; all small lattice rings (convex and concave); all sequences of valid and invalid builder operations up to a depth; grids of constructor arguments and indices",
 "tests hardly check errors: they exercise requests that are served.",
 ["frackit/intersection/intersect.hh","frackit/intersection/intersectionangle.hh","frackit/intersection/algorithms/algo_planargeom_line.hh","frackit/intersection/algorithms/algo_quadrilateral_quadrilateral.hh","frackit/intersection/algorithms/algo_polygon_polygon.hh","frackit/intersection/algorithms/algo_cylsurface_polygon.hh","frackit/intersection/algorithms/algo_cylsurface_quadrilateral.hh",
  "frackit/distance/distancetoboundary.hh","frackit/distance/pointonboundary.hh","frackit/geometryutilities/applyongeometry.hh","frackit/geometryutilities/assign.hh","frackit/geometryutilities/name.hh","frackit/occ/breputilities.hh",G+"box.hh",G+"cylinder.hh",G+"hollowcylinder.hh",G+"ellipse.hh",G+"polygon.hh",G+"quadrilateral.hh",G+"triangle.hh",N+"networkbuilder.hh","frackit/io/brepwriter.hh","frackit/io/gmshwriter.hh"],
 [("guards and generic overloads that throw","frackit/**/*.hh")],
 state=[("networks_/subDomains_/entityDimension_/domainDimension_","contents of a builder","frackit/entitynetwork/networkbuilder.hh")],
 observe=["exceptions, state of the builder after a refused operation, files"])

prop("C32","Default tolerances follow the size of the geometry",
 """Queries made without a tolerance behave alike at every size: the default tolerance of segments, circles, ellipses, disks, quadrilaterals, convex polygons, cylinder surfaces, boxes and spheres is proportional to their size
 (between 1e-9 and 1e-5 of the extent), independent of position, orientation and the order of the defining points, and that of a B-rep shape is bounded in the same way; membership and boundary queries, segment-segment,
 line-disk and line-quadrilateral intersections and bounding box tests that use it accept what is off by 1e-10 of the size and reject what is off by 1e-4 of the size or more (planes, lines and the planes of disks and ellipses
 use the absolute base tolerance of 1e-7 instead; below about 1e-6 in absolute terms the CAD kernel decides).""",
 ["inputs"],"all geometries of sizes from 1e-4 to 1e4, poses and presentations x base points displaced in 26 directions by five fractions of the size",
 "tests run at three scales with displacements of one order of magnitude and mostly with one pose.",
 ["frackit/precision/defaultepsilon.hh","frackit/precision/precision.hh","frackit/distance/pointongeometry.hh","frackit/distance/pointonboundary.hh","frackit/distance/distance.hh","frackit/intersection/intersect.hh","frackit/intersection/bboxintersection.hh","frackit/intersection/algorithms/algo_segment_segment.hh","frackit/occ/breputilities.hh"]+[G+f for f in ("segment.hh","circle.hh","ellipse.hh","disk.hh","triangle.hh","quadrilateral.hh","polygon.hh","box.hh","cylinder.hh","cylindersurface.hh","hollowcylinder.hh","sphere.hh","line.hh")],
 [("defaultEpsilon() overloads","frackit/precision/defaultepsilon.hh"),("overloads of contains/intersect/doIntersect/pointOnGeometry without tolerance","frackit/**/*.hh")],
 observe=["defaultEpsilon(g)","contains(p)","pointOnGeometry(p,g)","pointOnGeometryBoundary(p,g)","intersect(a,b)","doIntersect(a,b)"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,sch)
except ImportError: pass
assert all(len(p["title"])<=80 for p in P)
print(len(P))
