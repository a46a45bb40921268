def Q(over, text): return {'over': over.split(), 'text': text}
def A(files, mech, state=(), observe=()):
    return {'files': ['src/' + f if not f.startswith('dep') else f for f in files.split()],
            'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': s} for s in state], 'observe_at': list(observe), 'hook_needed': None}
GVF = 'gated value-flow analysis (global value numbering with loop summaries) over clang LLVM IR'
PROPS = [
dict(id='P01', title='Each transform applies exactly its documented linear map to every vertex',
 statement='translate, rotate, scale, shear and affine, in 2, 3 and N dimensions, replace the position of every vertex of the polytope by exactly the documented map of its old position (for every legal axis argument, and for affine including the homogeneous divide by the last row). Connectivity, vertex count and the transform arguments are left as they were.',
 quantifier=Q('inputs', 'all polytopes, all vertex counts up to the buffer size, all parameter values, all legal axis pairs'),
 why_tests_cant='the test suite never calls a transform; a test would sample a few axes and matrices',
 anchors=A('r2d.c r3d.c rNd.c', [('transform routines', 'src/r2d.c:r2d_rotate..r2d_affine, src/r3d.c:r3d_rotate..r3d_affine, src/rNd.c:rNd_rotate..rNd_affine')], ['poly->verts[].pos'], ['poly after the call']),
 technique=GVF, level='proof', note='generic vertex of a generic polytope; real arithmetic, rounding not modelled'),
dict(id='P02', title='Constructors build exactly the documented box, simplex or polygon',
 statement='init_box, init_tet, init_simplex and 2D init_poly set the vertex count, place each documented corner exactly once, and link the vertices into a closed, reciprocal, positively oriented graph enclosing the documented volume for a positively oriented input. In N dimensions the 2-face labels of the built polytope are symmetric and agree along every edge.',
 quantifier=Q('inputs', 'all coordinates; for the polygon constructor all vertex counts'),
 why_tests_cant='tests build a few shapes and only look at their moments; a wrong label, link order or corner that cancels in the sampled moment is not seen',
 anchors=A('r2d.c r3d.c rNd.c', [('constructors', 'r2d_init_box, r2d_init_poly, r3d_init_box, r3d_init_tet, rNd_init_box, rNd_init_simplex')], ['poly->verts[].pnbrs, pos, finds', 'poly->nverts'], ['poly after the call']),
 technique=GVF, level='proof', note='polynomial identities over all coordinates; real arithmetic'),
dict(id='P03', title='Face-plane builders return unit inward planes through the face',
 statement='Every *_faces_from_verts routine returns, for a positively oriented solid or polygon, exactly one plane per face: unit normal pointing to the inside, zero signed distance at the vertices of the face.',
 quantifier=Q('inputs', 'all coordinates; polygons with any number of vertices; general polyhedra with any face list'),
 why_tests_cant='the box and general-polyhedron builders are not called by any test, and tests of the others only clip with the planes',
 anchors=A('r2d.c r3d.c', [('face builders', 'r2d_box_faces_from_verts, r2d_poly_faces_from_verts, r3d_tet_faces_from_verts, r3d_box_faces_from_verts, r3d_poly_faces_from_verts')], [], ['faces[] after the call']),
 technique=GVF, level='proof', note='identities over all coordinates; general polyhedron faces in size contexts 3..6'),
dict(id='P04', title='orient returns the signed volume of the simplex',
 statement='r2d_orient, r3d_orient and rNd_orient return the signed measure of the simplex spanned by their arguments: the determinant of its edge vectors over the factorial of the dimension, positive exactly for a positively oriented simplex.',
 quantifier=Q('inputs', 'all coordinates'),
 why_tests_cant='tests use the value only to flip random simplices',
 anchors=A('r2d.c r3d.c rNd.c', [('orientation predicates', 'r2d_orient, r3d_orient, rNd_orient')], [], ['return value']),
 technique=GVF, level='proof', note='polynomial identity over all coordinates'),
dict(id='P05', title='reduce returns the exact moments of the polytope in the documented order',
 statement='r2d_reduce and r3d_reduce write, for every requested order, the integral over the polytope of each monomial in the documented row-major order (1; x,y,z; x^2,xy,xz,...), whether or not the shift-to-centroid option is compiled in, and rNd_reduce writes the volume; an empty polytope gives zeros, and nothing outside the moment list is written.',
 quantifier=Q('inputs', 'all well-formed polytopes of any size and any position; orders 0..9 in 2D, 0..5 in 3D, 0 in N dimensions'),
 why_tests_cant='tests compare moments of random convex bodies near the origin at a few orders with a tolerance; a dropped contribution, wrong order or missing shift for other bodies is not seen',
 anchors=A('r2d.c r3d.c rNd.c', [('moment integration', 'r2d_reduce, r2d_shift_moments, r3d_reduce, r3d_shift_moments, rNd_reduce'), ('centre used by the shift', 'r2d_poly_center, r3d_poly_center')], ['moments[]'], ['moments[] after the call']),
 technique=GVF, level='proof', note='closed forms of the loop summaries; 3D face walk by its generic step; real arithmetic'),
dict(id='P16', title='Voxelisation adds each cell the moments of its piece, and only there',
 statement='r2d_rasterize, r3d_voxelize and rNd_voxelize subdivide the polytope at grid planes strictly inside the current index box until single cells remain, and add the moments of each piece to exactly the row-major grid entry of its cell relative to the requested box, leaving every other entry unchanged. Bad arguments write nothing, and the work stack never overflows.',
 quantifier=Q('inputs', 'all polytopes, all index boxes, spacings and previous grid contents; moment orders 0..2'),
 why_tests_cant='the voxelisation test sums one grid whose cells are a box at the origin; wrong cells, an offset box, or a second accumulation leave the sum unchanged',
 anchors=A('v2d.c v3d.c vNd.c', [('subdivision loop', 'r2d_rasterize, r3d_voxelize, rNd_voxelize')], ['stack[]', 'dest_grid[]'], ['dest_grid after the call']),
 technique=GVF, level='proof', note='inductive step of the subdivision loop for an arbitrary stack element; split and reduce are summarised'),
dict(id='P17', title='Index boxes cover the polytope and clamping cuts exactly the overlap',
 statement='get_ibox returns per axis floor(min/spacing) and ceil(max/spacing) over all vertices. clamp_ibox empties the polytope and zeroes the box when the two boxes do not overlap, and otherwise writes their intersection and clips with exactly the planes of those clamp faces that cut the box.',
 quantifier=Q('inputs', 'all non-empty polytopes, spacings, boxes and clamp boxes'),
 why_tests_cant='tests call get_ibox for one convex body and never call clamp_ibox',
 anchors=A('v2d.c v3d.c vNd.c', [('index boxes', 'r2d_get_ibox, r3d_get_ibox, rNd_get_ibox, r2d_clamp_ibox, r3d_clamp_ibox, rNd_clamp_ibox')], ['ibox[2]'], ['ibox and poly after the call']),
 technique=GVF, level='proof', note='clip is summarised; coordinates below the 1e30 sentinel'),
dict(id='P06', title='Clipping keeps exactly the closed half-space side, plane by plane',
 statement='After clip, a polytope on the inner side of (or touching) every plane is unchanged, one on the outer side of some plane is empty, and in between a new vertex lies exactly on the plane on each edge from a vertex with S >= 0 to one with S < 0. Exactly the vertices with S >= 0 and the new ones survive, with links renumbered consistently and new vertices joined to the next new vertex along the same face. The planes are applied one after another, each independently of what scratch state an earlier one left.',
 quantifier=Q('inputs', 'all well-formed polytopes within capacity, all planes, any number of planes'),
 why_tests_cant='tests compare total volume of random cuts to a relative tolerance; tolerance thresholds, vertices exactly on a plane, later planes of a list after a non-cutting one, and wrong linkage that keeps the volume are not sampled',
 anchors=A('r2d.c r3d.c rNd.c', [('clipping', 'r2d_clip, r3d_clip, rNd_clip')], ['sdists[]', 'clipped[]', 'poly->verts', 'poly->nverts'], ['poly after the call']),
 technique=GVF, level='proof', note='N dimensions: the closing of new 2-faces is not judged'),
dict(id='P07', title='Splitting sends each part to its own side and loses or invents nothing',
 statement='Split leaves a polytope with all S >= 0 whole in the positive (first) output and one with all S < 0 whole in the negative output, the other output empty. Otherwise each edge from S >= 0 to S < 0 gets two coincident new vertices exactly on the plane, one per side, every vertex goes to exactly one output by the sign of S, and links are renumbered to where their targets went. Every polytope of an array is split, each independently of the others.',
 quantifier=Q('inputs', 'all well-formed polytopes within capacity, all planes and grid coordinates, all array lengths, outputs separate or (split_coord) first output equal to the input'),
 why_tests_cant='tests split random bodies one plane at a time and compare the sum of volumes to a tolerance; swapped sides, vertices on the plane, arrays with untouched members and wrong links that keep the volume are not sampled',
 anchors=A('r2d.c r3d.c v2d.c v3d.c vNd.c', [('splitting by a plane', 'r2d_split, r3d_split'), ('splitting at a grid coordinate', 'r2d_split_coord, r3d_split_coord, rNd_split')], ['side[]', 'sdists[]', 'inpoly->verts', 'outpolys[]'], ['both outputs after the call']),
 technique=GVF, level='proof', note='rNd_split is judged as two calls of rNd_clip (P06)'),
dict(id='P11', title='Inputs are never written, not even temporarily',
 statement='Everything documented as input of a call (planes, matrices, bounds, vertex and face lists, boxes, and the polytopes given to reduce, is_good, print, get_ibox, split and the voxelisers) is bit for bit unchanged when the call returns, and is never written in between. So a caller may share it between threads or keep it in read-only memory.',
 quantifier=Q('inputs', 'all arguments of all library calls; everything the called functions call'),
 why_tests_cant='no test compares an input with its old value, and a temporary modification that is undone before the return is invisible to any single-threaded test',
 anchors=A('r2d.c r3d.c rNd.c v2d.c v3d.c vNd.c', [('public interface', 'every function declared in src/*.h')], ['pointer parameters documented [in]'], ['memory behind the [in] parameters']),
 technique='interprocedural points-to and store-effect analysis over clang LLVM IR', level='proof', note='known findings: r2d_split and r3d_split cut the polytopes documented [in] in place'),
dict(id='P12', title='Calls share no state: results depend on the arguments only',
 statement='No library function keeps state between calls: no object with static storage is written, no process-wide state (errno, locale, random generator, files) is read, the heap is used only by the boundary-representation routines. Only print and the diagnostics of is_good produce output, and no release-build call ends the process. So calls on different polytopes may run in parallel, and a repeated call gives the same result.',
 quantifier=Q('schedules', 'all interleavings of calls on disjoint arguments, all call histories'),
 why_tests_cant='a static scratch buffer or a memo gives right answers in any single-threaded run that starts each object afresh',
 anchors=A('r2d.c r3d.c rNd.c v2d.c v3d.c vNd.c', [('all functions', 'src/*.c')], ['objects with static storage'], ['return values and outputs']),
 technique='interprocedural points-to and effect analysis over clang LLVM IR', level='proof', note='reentrancy of the C library functions called is assumed'),
dict(id='P20', title='Debug and release builds compute the same results',
 statement='Compiling without NDEBUG adds only assertions and printed diagnostics: no code of either build that the other lacks changes memory, control flow or results, and no shared line uses a different constant.',
 quantifier=Q('inputs', 'all inputs on which no assertion fires'),
 why_tests_cant='the tests exercise one build configuration only',
 anchors=A('r2d.c r3d.c rNd.c v2d.c v3d.c vNd.c', [('debug-only blocks', 'src/r3d.c: #if !defined(NDEBUG) and assert')], [], ['results of both builds']),
 technique='differential effect analysis of the two compilations (LLVM IR by source line, dead-code elimination of the difference)', level='proof', note='assert and the printf family are the only intended differences'),
dict(id='P08', title='shift_moments translates a moment list exactly; poly_center averages',
 statement='r2d_shift_moments and r3d_shift_moments turn a moment list into the list of the same body translated by the given vector: every entry becomes its exact binomial sum, entry 0 and everything outside the list stay as they are, for every vector including zero and negative components. r2d_poly_center and r3d_poly_center return the average of all vertex positions and change nothing.',
 quantifier=Q('inputs', 'all moment values and shifts; orders 0..6 in 2D, 0..4 in 3D (7 and 6 in the thorough tier); all polytopes for the centres'),
 why_tests_cant='the routines are public but tests only reach them inside reduce, at low orders and with bodies near the origin',
 anchors=A('r2d.c r3d.c', [('moment translation', 'r2d_shift_moments, r3d_shift_moments'), ('centre', 'r2d_poly_center, r3d_poly_center')], ['moments[]'], ['moments[] after the call', 'return value']),
 technique=GVF, level='proof', note='polynomial identities; real arithmetic'),
dict(id='P09', title='Every access stays inside its object; buffers never overflow',
 statement='No library call reads or writes outside the arrays it is given or its own local buffers: vertex numbers, links, moment lists, work lists and plane buffers stay within capacity for every well-formed polytope up to the maximum size. A vertex is only created while there is room for it; r3d_clip and r3d_split refuse instead. Work lists are long enough for the worst graph.',
 quantifier=Q('inputs', 'all well-formed polytopes of every size up to the capacity, all other arguments; moment orders 0..2'),
 why_tests_cant='tests use polytopes with a few dozen vertices; overflows need hundreds of vertices at exactly the capacity, and an overflow into a neighbouring local is silent',
 anchors=A('r2d.c r3d.c rNd.c v2d.c v3d.c vNd.c', [('vertex buffers', 'r2d_clip, r3d_clip, rNd_clip, r2d_split, r3d_split, r2d_split_coord, r3d_split_coord'), ('work lists', 'r3d_is_good, rNd_is_good'), ('scratch arrays', 'reduce, shift_moments, clamp_ibox')], ['poly->verts', 'sdists[]', 'clipped[]', 'side[]', 'stack[]'], ['memory outside the objects']),
 technique=GVF, level='proof', note='inductive range invariants; 34 of about 400 obligations stay undecided (links found by a walk); 5 functions without a capacity check are known findings'),
dict(id='P18', title='is_good accepts exactly the graphs that meet its documented rules',
 statement='is_good returns 1 only if every link of every vertex names another vertex of the polytope, no vertex has two links to the same vertex, and exactly D links point to every vertex; in 3 and N dimensions also only if every connected component stays connected after removing any D-1 of its vertices. A graph that meets all of these is never refused. Arbitrary garbage in the links (also out of range) is judged safely.',
 quantifier=Q('inputs', 'all vertex counts from 0 to the capacity and all link values'),
 why_tests_cant='tests only use is_good to confirm bodies the library built; a check that was lost or weakened, a component or vertex pair that is never tried, or a too strict rule shows only on malformed or unusual graphs',
 anchors=A('r2d.c r3d.c rNd.c', [('validity check', 'r2d_is_good, r3d_is_good, rNd_is_good')], ['vct[]', 'regions[]', 'stack[]'], ['return value']),
 technique=GVF, level='proof', note='by inductive steps of the work-list and counting loops; N dimensions: enumeration of the masked subsets only by its last index; termination of the fills not judged'),
dict(id='P10', title='Status codes: 0 means it did not fit, 1 means the work was done',
 statement='r3d_clip and r3d_split return 1 only after every plane or polytope has been processed (r3d_clip: or the polytope has become empty), and return 0 only for an empty polytope (r3d_clip) or when a vertex must be added and R3D_MAX_VERTS vertices are already in use, so that a result which just fits is accepted. r3d_init_poly returns 0 exactly if more than R3D_MAX_VERTS vertices are given, some vertex lies in fewer than three faces, or the vertices and their duplicates exceed the capacity.',
 quantifier=Q('inputs', 'all polytopes, planes and face lists, in particular vertex counts at and just below the capacity'),
 why_tests_cant='no test fills a vertex buffer; an off-by-one in a capacity test, a refusal that is swallowed by an outer loop, or an early success shows only with hundreds of vertices in the right place',
 anchors=A('r3d.c', [('status codes', 'r3d_clip, r3d_split, r3d_init_poly')], ['*nverts', 'eperv[]'], ['return value']),
 technique=GVF, level='proof', note='r3d_split: for one polytope of the array; that the array is walked completely is part of P07'),
dict(id='P13', title='r3d_init_poly links every vertex to its neighbours in face order',
 statement='For a face list in which every vertex lies in exactly three faces, r3d_init_poly places vertex v at vertices[v], and its three links are the three vertices joined to it by the faces, each exactly once, in the orientation the faces give (the vertex before it on a face follows the vertex after it, cyclically), whatever the order of the faces and of the corners within a face. This construction is used exactly for such lists; any vertex in more than three faces selects the construction with duplicate vertices.',
 quantifier=Q('inputs', 'all face lists of closed polyhedra, in every order of faces and of corners, with faces of any size from three'),
 why_tests_cant='tests build a handful of fixed solids; the half-edge insertion depends on the order in which the three faces of a vertex arrive, and a wrong slot for one order, a skipped corner or a wrong wrap-around needs a particular list',
 anchors=A('r3d.c', [('face list to graph', 'r3d_init_poly')], ['verts[].pnbrs', 'eperv[]'], ['poly']),
 technique=GVF, level='proof', note='the effect of one corner on the links is read off the loop and composed for all six orders; the content of the branch with duplicate vertices is not judged'),
]
NA = [
dict(id='P21', title='Clipping and splitting conserve volume and moments to rounding error',
 statement='The floating-point moments of the two parts of a split add up to those of the whole within a small multiple of machine epsilon times the size of the body, for every position, scale and plane.',
 quantifier=Q('inputs', 'all polytopes, planes, scales and offsets representable in double precision'),
 why_tests_cant='tests sample random convex bodies of size one near the origin',
 anchors=A('r2d.c r3d.c rNd.c', [('intersection point and moment recurrences', 'wav, r2d_reduce, r3d_reduce, rNd_reduce')], ['poly->verts[].pos'], ['moments of the parts']),
 reason='needs a bound on accumulated rounding error over data-dependent numbers of operations; the value-flow analysis works over the real field (P05, P06 and P07 decide the exact identities), and no sound static rounding analysis for unbounded loops over arbitrary magnitudes is in reach'),
dict(id='P22', title='Clip of a valid polytope yields a valid polytope graph',
 statement='If is_good accepts a polytope with consistently oriented faces, then after clip or split by any planes every result is again accepted by is_good and its vertex positions describe the intersection.',
 quantifier=Q('inputs', 'all valid polytopes and all planes, including nonconvex bodies'),
 why_tests_cant='tests clip random convex bodies only',
 anchors=A('r2d.c r3d.c rNd.c', [('clipping and relinking', 'r2d_clip, r3d_clip, rNd_clip, r2d_split, r3d_split')], ['poly->verts[].pnbrs'], ['is_good of the results']),
 reason='a global graph property (k-connectivity, planarity of the face walks) of an unbounded graph after relinking; no inductive invariant over one generic vertex expresses it. The local conditions (reciprocal links, slots, walks that stop at the next new vertex, renumbering) are decided in P06 and P07'),
dict(id='P23', title='Voxel moments sum to the moments of the polytope',
 statement='The sum of all cells written by rasterize or voxelize equals the moments of the part of the polytope inside the requested box.',
 quantifier=Q('inputs', 'all polytopes, boxes and spacings'),
 why_tests_cant='one grid and one kind of body are sampled',
 anchors=A('v2d.c v3d.c vNd.c', [('subdivision loop', 'r2d_rasterize, r3d_voxelize, rNd_voxelize')], ['dest_grid[]'], ['sum over dest_grid']),
 reason='a sum over a recursion tree of data-dependent depth in floating point; the inductive step that implies it in exact arithmetic (each element is split into two boxes that partition it, each cell is reduced once) is decided in P16 and P07'),
dict(id='P24', title='Every call on a well-formed polytope returns',
 statement='No library call loops forever on a well-formed polytope, whatever its size, links and coordinates are.',
 quantifier=Q('inputs', 'all well-formed polytopes'),
 why_tests_cant='tests only use a few bodies',
 anchors=A('r2d.c r3d.c rNd.c', [('face walks', 'r3d_clip, r3d_split, r3d_reduce, r3d_init_brep, r2d_clip, r2d_split')], ['poly->verts[].pnbrs'], ['return of the call']),
 reason='for the face walks and fills the ranking argument is the length of a cycle of a permutation of an unbounded graph, which no linear or lexicographic ranking over program variables expresses'),
]
