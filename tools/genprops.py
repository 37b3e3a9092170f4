#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Bounds completely contain the solid",
 "For every 2D or 3D shape built from valid arguments, each point at which Evaluate is negative lies inside (or within rounding of) the box returned by Bounds, for primitives, polygons, booleans, cuts, arrays, rotations, patterns, transforms, extrusions, lofts, revolutions, slices, elongations, screws and objects, however deeply they are composed. Offset and shell keep this when the shape they wrap is a true distance outside its own bounds, and a union blended with a MinFunc stays within Bounds grown by the reach of the blend. Bounds have Min <= Max and are the same on every call.",
 ["inputs","programs"],"all compositions of constructors with valid parameters, all query points outside Bounds",
 "The tests render six objects and compare pictures; a box that is too small is silent there because rendering never looks outside Bounds.",
 ["sdf2.go","sdf3.go","matrix.go","form2/must2","form3/must3","internal/d2/box.go","internal/d3/box.go","form3/obj3/thread/thread.go"],
 [("bounding boxes computed by each constructor","sdf3.go:Revolve3D,Extrude3D,TwistExtrude3D,RotateUnion3D,RotateCopy3D,Array3D,Offset3D,Shell3D,Elongate3D; sdf2.go counterparts"),("axis aligned box of a transformed box","matrix.go:MulBox")],
 ["Evaluate and Bounds of the built shape"])
prop("C02","Primitive shapes evaluate to the exact signed distance",
 "Circle, 2D and 3D box (sharp or rounded), line, sphere, cylinder, capsule and truncated cone with rounding evaluate at every point to the exact signed Euclidean distance to the described solid, negative inside, and a rounded cylinder, box or cone still measures the requested outer size. A regular N-gon has its N vertices evenly spaced on the given radius starting on the positive x axis.",
 ["inputs"],"all valid sizes and roundings, all query points",
 "Tests compare rendered images of single shapes at one size; a wrong distance away from the surface or at a corner region does not show.",
 ["form2/must2/basic.go","form2/must2/poly.go","form3/must3/cylinders.go","form3/basic.go","sdf2.go"],
 [("per region distance formulas","form2/must2/basic.go, form3/must3/cylinders.go"),("box distance helpers","sdf2.go:sdfBox2d, form2/must2/util.go, form3/must3:sdfBox2d/sdfBox3d")],
 ["Evaluate of each primitive"])
prop("C03","Polygon distance, inside test and independence from its input",
 "A polygon evaluates to the distance to its nearest edge, negative exactly where the winding number of the closed vertex loop is not zero, for any vertex list including concave, self intersecting and repeated vertices, in either direction and from any starting vertex, and whether or not the first vertex is repeated at the end. The slice given by the caller is neither changed nor kept: changing it afterwards does not change the shape. Its bounds are exactly those of its vertices.",
 ["inputs","histories"],"all vertex lists with at least three vertices of which two differ, all query points, caller mutation of the slice afterwards",
 "Only a few fixed polygons take part in rendered tests; winding, repeated vertices, collinear edges and rows of vertices at the height of the query are not sampled.",
 ["form2/must2/poly.go","form2/poly.go"],
 [("edge distance and crossing count","form2/must2/poly.go:(*polygon).Evaluate"),("loop closing and copies","form2/must2/poly.go:Polygon")],
 ["Evaluate, Bounds"])
prop("C04","PolygonBuilder returns the vertices that were described",
 "Vertices returns the added vertices in order with relative and polar ones resolved, reversed when asked, and without dropped ones; smoothed corners become facets+1 points on the circle of the given radius tangent to both edges, chamfered right angle corners are cut by the given size along both edges, and arcs become points on the circle of the given radius through both ends, on the side given by its sign. Corners that cannot be smoothed because the radius does not fit, or that have no neighbour in an open polygon, stay as they are. Calling Vertices again returns the same vertices.",
 ["inputs","programs"],"all sequences of builder calls with finite coordinates",
 "No test looks at builder vertices; threads use a few fixed smoothings.",
 ["form2/must2/poly.go"],
 [("fixups in order","form2/must2/poly.go:fixups, relToAbs, createArcs, smoothVertices"),("neighbour lookup for open and closed polygons","form2/must2/poly.go:nextVertex, prevVertex")],
 ["PolygonBuilder.Vertices"])
prop("C05","Booleans and cuts select exactly the right points",
 "At every point a union is the minimum of its members, a difference the maximum of the first and the negated second, an intersection the maximum of both, and a cut the maximum of the shape and the signed distance to the cutting line or plane (keeping the right hand side of the direction in 2D and the side the normal points to in 3D, whatever the length of that vector). For unions in 2D the value holds wherever members are no closer than their bounding boxes, and the sign (inside or outside) holds always.",
 ["inputs","programs"],"any members, order and number of members, all points",
 "Tests only render a bolt; pruning by bounding box, member order and cut sides are not compared with anything.",
 ["sdf2.go","sdf3.go","internal/d2/box.go"],
 [("2D union pruning by box distance","sdf2.go:(*union2).Evaluate, internal/d2/box.go:MinMaxDist2"),("cut normals","sdf2.go:Cut2D, sdf3.go:Cut3D")],
 ["Evaluate of booleans and cuts over probe members"])
prop("C06","Blend functions obey their laws and are honoured by every boolean",
 "Every minimum function (MinRound, MinExp, MinPow, MinPoly) is commutative, never above the plain minimum, monotone in both arguments and continuous, and finite for finite arguments; MinPoly (n>0) equals the plain minimum wherever the arguments are k or more apart and differs from it by at most k/(2n) (reached at equal arguments for n>1), MinRound equals it wherever at most one argument is below k, MinExp differs by at most ln(2)/k (reached at equal arguments), MinPow blends only positive arguments and by at most the factor 2^(-1/k) (reached at equal arguments), and MaxPoly is the mirror image of MinPoly. A function given to SetMin or SetMax is used, over all members, by every union, array, rotated union, difference and intersection in 2D and 3D.",
 ["inputs","programs"],"all pairs of values, degrees and radii, all boolean types",
 "No test calls a blend function.",
 ["utils.go","sdf2.go","sdf3.go"],
 [("blend formulas","utils.go:MinRound, MinExp, MinPow, MinPoly, MaxPoly"),("SetMin/SetMax storage and folds","sdf2.go, sdf3.go")],
 ["blend functions called directly; Evaluate with recording blend functions"])
prop("C07","Transforms move shapes exactly as their matrices say",
 "A transformed shape has at the image of each point the value the original has at the point, for every invertible combination of translations, right handed rotations, scales and mirrors, and products, inverses and determinants of matrices satisfy the algebra of the maps they stand for. Rotations about an axis (of any length) and in the plane are counter clockwise by the angle in radians, mirrors exchange the named sides, and the transformed box contains the image of the box and nothing beyond its corners need. Uniform scaling by k>0 multiplies lengths and distances by k, and centering puts the middle of the bounds at the origin.",
 ["inputs","programs"],"all invertible matrices built from the public constructors, all points",
 "Tests use one or two fixed translations; nothing multiplies, inverts or mirrors matrices.",
 ["matrix.go","sdf2.go","sdf3.go","internal/d3/transform.go","internal/d2/transform.go"],
 [("matrix products, inverses, determinants, box images","matrix.go"),("inverse mapping of query points","sdf2.go:Transform2D, ScaleUniform2D, Center2D, CenterAndScale2D; sdf3.go:Transform3D, ScaleUniform3D")],
 ["MulPosition, Mul, Inverse, Determinant, MulBox, Evaluate"])
prop("C08","Pattern operations place exactly the requested copies",
 "Arrays place num copies spaced by step along each axis, rotated unions num copies each turned by one more step, rotated copies num copies, evenly around the full circle, of what the shape has in the sector of one copy about the positive x axis, lines one copy for each 'x' of the pattern, the i-th of its n characters standing for the point i/n of the way from the first to the last point, multi one copy per position and orient one copy per direction with the base axis turned onto it by a proper rotation. The result is inside exactly where one of those copies is, an empty request gives a shape that is nowhere inside, and a request for one copy gives that copy.",
 ["inputs","programs"],"all counts including zero and one, steps, patterns, positions and directions (also opposite and parallel to the base), all points",
 "No test uses a pattern operation other than the knurl; off by one counts and directions opposite to the base are not sampled.",
 ["sdf2.go","sdf3.go","matrix.go","utils.go"],
 [("copy loops and index arithmetic","sdf2.go:Array2D, RotateUnion2D, RotateCopy2D, LineOf2D, Multi2D; sdf3.go:Array3D, RotateUnion3D, RotateCopy3D, LineOf3D, Multi3D, Orient3D"),("rotation of one direction onto another","matrix.go:rotateToVec")],
 ["Evaluate, Bounds"])
prop("C09","Extrusions and lofts have the requested section at every height",
 "An extrusion of height h occupies exactly |z| <= h/2 and has at height z the given profile: unchanged, turned by twist*z/h, scaled by 1 at the bottom and by scale at the top with the reciprocal varying linearly, or both. A rounded extrusion equals the distance to the unrounded core minus the rounding and measures h overall, and a loft has the first profile at the bottom, the second at the top and their linear mix in between. A rounding that does not fit gives a shape that is nowhere inside.",
 ["inputs","programs"],"all profiles, heights, twists, scales and roundings, all points",
 "Only plain extrusions of a hexagon are rendered in tests.",
 ["sdf3.go","utils.go"],
 [("mapping of space points to the profile","utils.go:NormalExtrude, TwistExtrude, ScaleExtrude, ScaleTwistExtrude"),("z clipping, rounding and mixing","sdf3.go:extrude3, extrudeRounded, loft3")],
 ["Evaluate over probe profiles; the extrusion functions"])
prop("C10","Revolutions and slices map points to the right plane",
 "A revolution by angle theta is inside exactly where the profile is inside at (distance to the z axis, z) and the angle about z lies between 0 and theta modulo full turns (everywhere for any number of full turns), and equals the profile's value for a full turn. A slice evaluates the solid at the point of the plane through a with normal n with the given 2D coordinates along an orthonormal right handed basis of that plane, and its bounds contain the section.",
 ["inputs","programs"],"all profiles, angles (acute, obtuse, reflex, full), planes and points",
 "No test uses partial revolutions or slices.",
 ["sdf3.go","sdf2.go"],
 [("wedge of two half planes","sdf3.go:Revolve3D, (*revolution3).Evaluate"),("plane basis","sdf2.go:Slice2D")],
 ["Evaluate, Bounds over probe shapes"])
prop("C11","Offset, shell and elongate change size as specified",
 "Offsetting subtracts the offset from the distance everywhere and grows the bounds by it on every side, shelling gives exactly the points within half the thickness of the surface, and elongating by h inserts a straight stretch of length |h| along each axis about the origin so that the two moved halves are exact copies of the original halves. A shell of no thickness is nowhere inside.",
 ["inputs","programs"],"all shapes, offsets, thicknesses and stretch vectors of either sign, all points",
 "No test uses these operations.",
 ["sdf2.go","sdf3.go"],
 [("distance arithmetic and clamping","sdf2.go:Offset2D, Elongate2D; sdf3.go:Offset3D, Shell3D, Elongate3D")],
 ["Evaluate, Bounds over probe shapes"])
prop("C12","Distances are never overestimated",
 "For every shape composed with distance preserving operations (primitives, polygons, unions, differences and intersections, plain or blended with MinPoly (n>0), MinExp, MinPow or MaxPoly, cuts, rigid transforms and mirrors, uniform scaling, offsets, shells, elongation, arrays, rotated unions, plain and rounded extrusion, full and partial revolution, slices; blended unions, slices and shapes shrunk by a negative offset not being members of a 2D union) the values at two points differ by at most their distance, so that no surface is closer than the value says and adaptive rendering may skip empty cubes. The same holds for panels, panel holes, hex heads and standoffs without webs. Screws and knurls exceed this by no more than the slopes of their helix and taper call for.",
 ["inputs","programs"],"all such compositions and pairs of points",
 "Tests render a few shapes; an overestimate shows only as missing patches of larger or finer models.",
 ["sdf2.go","sdf3.go","form2/must2","form3/must3","render/octree_renderer.go"],
 [("minimum, maximum and exact primitives preserve the bound","sdf2.go, sdf3.go, must2, must3"),("cube skipping relies on it","render/octree_renderer.go:IsEmpty")],
 ["Evaluate at pairs of points"])
prop("C13","Evaluate is total, deterministic and free of side effects",
 "Evaluate of any shape built from valid arguments returns a number (never NaN) and never panics for any finite point, including the origin, axes, vertices, edges, centres, points at the ends of ranges and very far points. Evaluating in any order, any number of times, or after building further shapes from the same parts or changing the slices the parts were given in returns bit for bit the same values.",
 ["inputs","histories"],"all shapes, special and random points, orders of evaluation",
 "Tests evaluate on a fixed grid, in one order.",
 ["sdf2.go","sdf3.go","form2/must2","form3/must3","form3/obj3","helpers/sdfexp"],
 [("guards for zero lengths and axes","all Evaluate methods")],
 ["Evaluate"])
prop("C14","Shapes may be evaluated from many goroutines at once",
 "Any shape, including imported meshes and shapes that share parts, may be evaluated and asked for Bounds by any number of goroutines at the same time without data races, and every goroutine gets the values a single goroutine gets.",
 ["schedules","inputs"],"all shapes, numbers of goroutines and interleavings",
 "The multithread test renders one shape and counts triangles without the race detector.",
 ["sdf2.go","sdf3.go","form2/must2","form3/must3","form3/obj3/thread","helpers/sdfexp/import.go","helpers/sdfexp/spatial3.go","helpers/sdfexp/bih.go"],
 [("evaluation does not write shared state","all Evaluate methods, helpers/sdfexp/spatial3.go")],
 ["Evaluate, Bounds under the race detector"])
prop("C15","Invalid arguments are rejected and valid ones accepted",
 "The form packages report invalid arguments as errors and return a working shape for every valid argument, where the must packages panic for the same arguments and give the same shape. Invalid are a negative circle radius, a polygon of fewer than three vertices, a 3D box with a size that is not positive or a negative rounding, a sphere or cylinder radius that is not positive, a negative cylinder rounding or one above the radius or half the height, and a cone height that is not positive, negative rounding or one above half the height; booleans, revolutions, lofts and rounded extrusions panic on missing shapes. Panels, panel holes, knurls, renderers of fewer than two cells, rotated copies of no copies and multi with no positions refuse impossible requests by a panic or an error. Bolts, nuts, screws and NPT sizes reject missing threads, impossible lengths, negative tolerances, unknown styles and unknown sizes with an error and nothing else does. The published unit constants convert millimetres to inches.",
 ["inputs"],"all argument combinations on both sides of each documented limit",
 "Tests only pass valid arguments.",
 ["form2/basic.go","form2/poly.go","form3/basic.go","form2/must2","form3/must3","form3/obj3/thread/bolt.go","form3/obj3/thread/nut.go","form3/obj3/thread/thread.go","form3/obj3/thread/npt.go","sdf2.go","sdf3.go"],
 [("recover and convert to error","form2/basic.go, form3/basic.go"),("argument checks","must2, must3, thread/*.go")],
 ["returned errors, panics"])
prop("C16","Screws follow the helix of their pitch, starts, hand and taper",
 "A screw has at every point within its length the value its thread profile has at (z minus the advance of the helix at that angle, wrapped to one pitch; distance to the axis plus the taper allowance), so that it advances starts*pitch per turn, is right handed for positive and left handed for negative starts, repeats after one pitch, and narrows towards +z by the tangent of the taper angle, solid to its axis where the profile is. It ends at plus and minus half its length.",
 ["inputs","programs"],"all profiles, pitches, starts of both signs, tapers, lengths and points",
 "The bolt picture test has one right handed, single start, untapered thread.",
 ["form3/obj3/thread/thread.go"],
 [("helix mapping","form3/obj3/thread/thread.go:Screw, (*screw).Evaluate, sawTooth")],
 ["Evaluate of screws over probe profiles"])
prop("C17","Thread standards have their standard dimensions",
 "The ISO, UTS, Acme, ANSI buttress and plastic buttress profiles have the major and minor radii, flank angles, flat widths and pitch of their standard at every diameter and pitch, and parameters report the nominal radius, pitch, one start and a hex size. NPT sizes set from their nominal name have the ASME major diameters, threads per inch and 1:32 per side taper, unknown sizes leave the thread as it was, and hex radius and height follow from the flat to flat distance.",
 ["inputs"],"all diameters and pitches, all nominal sizes, both thread genders",
 "Tests check a table of metric hex sizes and one ISO bolt picture.",
 ["form3/obj3/thread/iso.go","form3/obj3/thread/uts.go","form3/obj3/thread/acme.go","form3/obj3/thread/ansibuttress.go","form3/obj3/thread/plasticbuttress.go","form3/obj3/thread/npt.go","form3/obj3/thread/basic.go","form3/obj3/thread/parameters.go"],
 [("profile polygons","Thread methods"),("size tables","npt.go:nptLookupTable, basic.go:metricF2FTable")],
 ["Thread profile Evaluate, ThreadParams"])
prop("C18","Bolts and nuts have their parts where they belong",
 "A bolt consists of the head centred on the origin, a shank of the nominal radius up to ShankLength above the head's top face and a thread of the chosen standard filling the rest of TotalLength, ending at half the head height plus TotalLength; a nut is a head of the chosen style, hexagonal, knurled or round, minus the thread over its full height. A Tolerance is subtracted from the radius of the bolt's thread and added to the radius of the nut's. The head has the flat to flat size, to within its corner rounding, and the height of the thread's parameters, and an external bolt and an internal nut of the same thread fit each other without interfering.",
 ["inputs"],"all threads, styles, total and shank lengths",
 "One ISO M16 bolt with a hex head is rendered.",
 ["form3/obj3/thread/bolt.go","form3/obj3/thread/nut.go","form3/obj3/thread/hexhead.go","form3/obj3/thread/knurl.go","form3/must3/cylinders.go"],
 [("part placement","bolt.go:Bolt, nut.go:Nut"),("chamfer of the thread end","must3:ChamferedCylinder")],
 ["Evaluate of bolts and nuts"])
prop("C19","Panels, standoffs, holes, heads and knurls match their parameters",
 "A panel is the rounded rectangle of the given size minus holes at the pattern positions along the margins, clockwise from the top; a Eurorack panel has the Doepfer size for its U and HP, two or four mounting holes at the standard margins and optional ridges; a panel hole, standoff (pillar, hole or stub, webs) and hex or knurled head occupy the described cylinders, boxes, gussets and prisms. A chamfered cylinder keeps of a shape centred on the z axis what lies within the cylinder of its bounds with bevels across the bottom and top edge, kb and kt times the radius wide. Options left at zero mean their documented default and never fail.",
 ["inputs"],"all parameter structs with valid values and every combination of optional parts",
 "One knurl and one hex head are rendered; panels and standoffs only appear in example programs that are not tested.",
 ["form2/obj2/panel.go","form3/obj3/panel.go","form3/obj3/standoff.go","form3/obj3/thread/hexhead.go","form3/obj3/thread/knurl.go"],
 [("part placement","obj2.Panel, obj2.EuroRackPanel, obj3.PanelHole, obj3.Standoff, thread.HexHead, thread.KnurledHead")],
 ["Evaluate, Bounds, HPSize, USize"])
prop("C20","Rendered meshes are closed and face outwards",
 "The triangles rendered from any solid whose field never overestimates distance form closed surfaces: every directed edge is matched by its opposite, triangles that meet share the very same coordinates, there are no degenerate triangles, normals point out of the solid, and the winding number of the mesh is 1 at points inside the solid and 0 at points outside, away from the surface by more than a cell. This holds for any number of cells, position, size and aspect ratio, and for every combination of corner signs within a cell.",
 ["inputs","configurations"],"all distance fields, mesh cell counts, boxes",
 "Tests compare triangle counts and pictures of fixed models; most of the 256 cell configurations are not reached or not looked at.",
 ["render/marchingcubes.go","render/octree_renderer.go"],
 [("marching cubes tables","render/marchingcubes.go:mcEdgeTable, mcTriangleTable, mcPairTable"),("octree subdivision covers the whole box","render/octree_renderer.go")],
 ["triangles returned by RenderAll(NewOctreeRenderer)"])
prop("C21","Rendered meshes lie on the surface to within the cell size",
 "Each vertex lies on an edge of a grid whose cells measure no more than the longest side of the slightly enlarged bounds divided by the number of cells, and is within a cell of the solid's surface (much closer where the surface is smooth), every part of the surface bigger than a few cells is near some triangle, and the enclosed volume converges to that of the solid as cells increase.",
 ["inputs","configurations"],"all distance fields and mesh cell counts",
 "Tests look at images from one viewpoint.",
 ["render/octree_renderer.go","render/marchingcubes.go"],
 [("resolution and level computation","render/octree_renderer.go:NewOctreeRenderer"),("interpolation along edges","render/marchingcubes.go:mcInterpolate"),("empty cube test","render/octree_renderer.go:IsEmpty")],
 ["triangles returned by RenderAll(NewOctreeRenderer)"])
prop("C22","Reading triangles loses and repeats nothing",
 "For every sequence of destination sizes, ReadTriangles returns counts between 0 and the length given, writes nothing past the count beyond its buffer, delivers each triangle of the model exactly once and ends with io.EOF, after which it delivers nothing; the triangles do not depend on the sizes used. RenderAll and CreateSTL deliver all triangles of any renderer, including those returned together with an error or after reads of none, and report any error but io.EOF; a TriangleBuffer is a first in first out queue. An empty solid renders as no triangles.",
 ["histories","inputs"],"all sequences of buffer sizes and renderer behaviours",
 "Tests read with one buffer size from well behaved renderers.",
 ["render/octree_renderer.go","render/io.go","render/stl.go"],
 [("unwritten buffer and todo list","render/octree_renderer.go:ReadTriangles, readTriangles"),("collection loops","render/io.go:RenderAll, render/stl.go:stlReader")],
 ["ReadTriangles results, RenderAll results, STL contents"])
prop("C23","Concurrent rendering is race free and loses no triangles",
 "Rendering with any number of goroutines gives the same set of triangles as with one, for any destination sizes, without data races, deadlock or panic; several renderers may run at once, also on shapes that share parts, and several files may be written, models imported and meshes made at once, each with the result it has alone.",
 ["schedules","configurations"],"all numbers of goroutines, destination sizes, shapes and interleavings",
 "One test compares the number of triangles of one shape for a couple of goroutine counts, without the race detector.",
 ["render/octree_renderer.go"],
 [("work splitting and merging","render/octree_renderer.go:readTrianglesThreaded"),("locked distance cache and counters","render/octree_renderer.go:dc3, processCube")],
 ["ReadTriangles under the race detector"])
prop("C24","STL files hold exactly the model",
 "WriteSTL and CreateSTL produce files of 84+50n bytes with a matching triangle count, and each record holds the triangle's vertices in order rounded to single precision with its unit normal by the right hand rule and zero attribute, in model order, for any number of triangles. Reading such a file back yields the same triangles.",
 ["inputs"],"all models of finite triangles, any size including more than one internal buffer",
 "Round trip tests use one model smaller than a few buffers with a loose comparison.",
 ["render/stl.go"],
 [("encoding","render/stl.go:WriteSTL, stlReader.Read, createSTL, stlTriangle.put"),("decoding","render/stl.go:readBinarySTL")],
 ["bytes written"])
prop("C25","3MF files are valid packages holding exactly the model",
 "Create3MF writes a zip package with content types, a relationship to the model part and a model in millimetres whose object is built once; its triangles, with indices resolved, are the model's triangles in order and at full precision, every index refers to a vertex and equal vertices are stored once. References and metadata names are only those the core specification allows.",
 ["inputs"],"all models of finite triangles",
 "The test only checks that a file is created.",
 ["render/3mf.go"],
 [("vertex sharing","render/3mf.go:AddObject"),("package layout","render/3mf.go:Create, relationships, mf3Content")],
 ["file contents"])
prop("C26","Failures to write or to render are reported",
 "When a writer fails or writes short at any byte, when the file cannot be created or the disk is full, or when the renderer fails at any point, WriteSTL, CreateSTL, Create3MF and RenderAll return an error, and they never report success for a file that does not hold the complete model. Writing an empty triangle list with WriteSTL is an error.",
 ["fault_sequences"],"every byte offset of failure of the writer, every renderer call that fails, missing directories, full devices, file size limits",
 "Tests have no failing writers or renderers.",
 ["render/stl.go","render/3mf.go","render/io.go"],
 [("error returns","render/stl.go:WriteSTL, createSTL, stlReader.Read; render/3mf.go:Create; render/io.go:RenderAll")],
 ["returned errors and file contents"])
prop("C27","ImportModel gives the signed distance to the mesh",
 "For any closed, outward oriented triangle mesh with well shaped triangles, also where several surfaces share an edge or a vertex, the SDF made by ImportModel evaluates at every point to the exact distance to the nearest triangle, negative exactly inside, also nearest to edges and vertices, for any position and scale of the mesh, with bounds equal to those of its vertices. Copies of a vertex that differ by much less than the vertex tolerance count as the same vertex; tolerances above half the longest side of the model are rejected with an error.",
 ["inputs"],"all closed meshes, positions and scales, all points",
 "The test renders an imported bolt without comparing it.",
 ["helpers/sdfexp/import.go","helpers/sdfexp/spatial2.go","helpers/sdfexp/spatial3.go"],
 [("nearest triangle search","import.go:Evaluate"),("closest feature and pseudo normals","spatial2.go:closestOnTriangle2, spatial3.go:CopySign, import.go:newMesh")],
 ["Evaluate, Bounds"])
prop("C28","ImportModelV2 gives the signed distance to the mesh",
 "For any closed, outward oriented triangle mesh, also where several surfaces share an edge or a vertex, importing returns and the SDF made by ImportModelV2 evaluates at every point to the exact distance to the nearest triangle, negative exactly inside, also nearest to edges and vertices, for any position and scale of the mesh, with bounds equal to those of its vertices; the mesh it exposes has the model's triangles over shared vertices. Copies of a vertex that differ by much less than the vertex tolerance count as the same vertex; tolerances above half the longest side of the model are rejected with an error.",
 ["inputs"],"all closed meshes, positions and scales, all points",
 "No test uses it.",
 ["helpers/sdfexp/bih.go"],
 [("bounding interval hierarchy search","bih.go:nearestDistHelper, subdivide"),("closest point cases and pseudo normals","bih.go:minDistTri, DistNearestTri, ImportModelV2")],
 ["Evaluate, Bounds, Mesh"])
prop("C29","Tetrahedral meshes are conforming and fill the solid",
 "UniformTetrahedronMesh returns finite nodes and tetrahedra of four distinct valid nodes in which no face is used by more than two tetrahedra, every node used lies in or on the (convex) solid, and every interior point deeper than 1.6 cells in boxes and 0.7 cells in spheres, cylinders and capsules lies in exactly one tetrahedron; deeper than two cells all tetrahedra are oriented alike and none is flat. The solid gives its true distance outside.",
 ["inputs"],"all convex solids, positions and resolutions with at least three cells per side",
 "No test uses it.",
 ["helpers/sdfexp/basicmesh.go","helpers/sdfexp/bccmesh.go","helpers/sdfexp/omesh.go"],
 [("lattice neighbours and tetrahedra","bccmesh.go"),("compression towards the surface","omesh.go:compressAndSmooth")],
 ["returned nodes and tetrahedra"])
prop("C30","Material compensation scales parts by the shrinkage",
 "Scaling a part for an ideal material leaves it as it is and for PLA enlarges every length and distance by 0.3 percent about the origin; internal dimensions are enlarged by the same factor plus a fixed 0.45 allowance for PLA, not at all for the ideal material, and non positive dimensions are rejected by a panic.",
 ["inputs"],"all parts and dimensions",
 "No test uses it.",
 ["helpers/matter/3dprint.go"],
 [("scale factors","helpers/matter/3dprint.go:Scale, InternalDimScale")],
 ["Evaluate, Bounds of scaled parts; InternalDimScale"])
prop("C31","Rendered fasteners, knurls and stand-offs are closed",
 "Renderings of screws, bolts, nuts, knurls, knurled heads and stand-offs with webs, of any thread standard, size and number of cells, are closed surfaces with the part inside and everything else outside, at points more than two cells from the surface. The distances these parts give may exceed the true ones by the slope of their helix or taper only; with that taken off nothing is missing from their meshes.",
 ["inputs","configurations"],"all ready made threaded and webbed parts and numbers of cells",
 "Tests compare pictures of a few parts from one side at one resolution.",
 ["form3/obj3/thread","form3/obj3","render/octree_renderer.go"],
 [("distances along the helix","sdf3.go/thread.go:Screw"),("cubes left out by distance","render/octree_renderer.go:IsEmpty"),("threads","form3/obj3/thread")],
 ["triangles returned by RenderAll(NewOctreeRenderer)"])
prop("C32","Parts survive the way from program to file and back",
 "For any solid whose field never overestimates distance and any number of cells, the STL and the 3MF file made of it, read back by their specifications alone with vertices told apart by their exact coordinates, are closed, face outwards, enclose exactly the inside of the solid away from its surface and reach no farther than the bounds; both files have the same triangles to single precision; importing either with ImportModel or ImportModelV2 gives a solid that is inside where the part is. The example programs run, and their files are complete, closed and of the extent their source calls for.",
 ["inputs","configurations"],"all solids, numbers of cells and both formats",
 "Tests look at single steps: triangle counts, one file written and read back.",
 ["sdf3.go","render/octree_renderer.go","render/marchingcubes.go","render/stl.go","render/3mf.go","helpers/sdfexp","examples"],
 [("points shared by neighbouring cubes","render/marchingcubes.go:mcInterpolate"),("encoding","render/stl.go, render/3mf.go"),("import","helpers/sdfexp/import.go, bih.go")],
 ["files written; Evaluate of imported models"])
prop("C33","What is made depends on the arguments alone",
 "Constructors and the functions that render, write, import and mesh are functions of their arguments: whatever was made before, in whatever order or at the same time in other goroutines, with other or nearly the same arguments, the same call with the same arguments gives a shape with the same bounds and the same value at every point, the same vertices, triangles, elements or file contents, and things made earlier do not change when others are made later.",
 ["history","schedule","inputs"],"all sequences of constructor, render, file and import calls in one process",
 "Tests make a handful of shapes in one order; state that is kept between calls and keyed by less than all arguments only shows for particular sequences.",
 ["sdf2.go","sdf3.go","matrix.go","utils.go","form2","form3","form3/obj3","form3/obj3/thread","render","helpers"],
 [("no package state but constants, tables and errors","all packages")],
 ["return values of all exported constructors and functions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
