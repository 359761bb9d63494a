#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts is this file)."""
import json, os
A = "src/algorithm/"
L = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])))

I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"

prop("C01", "A complete mesh is a valid conforming partition of the domain",
     "Whenever a mesh is reported complete, its triangles and quads are simple, positively oriented polygons with pairwise disjoint interiors whose union is exactly the domain. Every element edge is either shared by exactly two elements with opposite directions or lies on the domain boundary, no vertex hangs on another element's edge, and every vertex belongs to an element. Every element carries the colour that was requested for the mesh.",
     [I, H, C], "every well-posed domain (any number of holes, any size function, fixed vertices and edges, quad layers), meshed at once, exhaustively or in chunks, and after every later operation",
     "The tests mesh a handful of domains and compare areas or counts; overlaps, hanging nodes and inverted elements that appear on other shapes or other sequences of operations are not looked for.",
     [A + "Triangulation.h", A + "FrontUpdate.h", A + "MeshCleanup.h", A + "QuadLayering.h", A + "Mesh.h"],
     [("advancing front triangulation", A + "Triangulation.h, " + A + "FrontUpdate.h"), ("clean-up of doubled edges", A + "MeshCleanup.h")],
     "public iterators over vertices, elements and edges of the mesh after each operation")
prop("C02", "Mesh boundary reproduces the domain boundary and its markers",
     "The boundary edges of a mesh, from its initialisation on and after every operation, are subdivisions of the edges of the domain's boundaries: they cover each of them exactly once, keep its direction and carry its marker. All corners of the domain stay mesh vertices at their exact position.",
     [I, H], "every domain, boundary definition (vertices and edges, coordinates in any order, shapes, files), size function and sequence of mesh operations",
     "The tests look at the number of boundary edges of a few domains; which marker each piece of the boundary carries after splitting, layering or refining is not checked.",
     [A + "MeshBuilder.h", A + "Boundary.h", A + "Front.h", A + "FrontInitData.h", A + "QuadLayering.h", A + "RefinementStrategy.h"],
     [("boundary refinement by the size function", A + "MeshBuilder.h, " + A + "Front.h"), ("edge splitting in layers", A + "QuadLayering.h")],
     "boundary edges of the mesh versus the edges handed to the domain")
prop("C03", "Reported connectivity agrees with the elements",
     "The neighbour relations a mesh offers are consistent with its elements: each interior edge knows exactly the element to its left and the one to its right, each boundary edge its single element, each element its neighbour across every edge, and each vertex exactly the elements and edges that use it and whether it is an end of a boundary edge. The set of interior edges is exactly the set of edges shared by two elements.",
     [I, H, C], "every complete mesh, after every operation on it or on neighbouring meshes",
     "The tests check neighbours on a few hand-made elements; after merging, smoothing, refinement or clean-up of arbitrary meshes nothing compares the stored relations with the elements.",
     [A + "MeshCleanup.h", A + "Vertex.h", A + "Edge.h", A + "Triangle.h", A + "Quad.h"],
     [("connectivity set-up", A + "MeshCleanup.h")], "edges, vertices and elements of the mesh")
prop("C04", "Completeness is reported if and only if it is true",
     "The completeness check reports a mesh as complete exactly when its elements cover the whole domain as a valid partition; for unfinished, failed or damaged meshes and for meshes compared with another domain it reports incompleteness. A triangulation that returns success has left a complete mesh unless the number of elements was limited.",
     [I, H], "every domain and every intermediate state of the mesh generation, also where the generation fails",
     "Tests call the check on a few finished meshes; false verdicts arise at intermediate states and on inputs for which generation fails.",
     [A + "MeshChecker.h", A + "EntityChecks.h", A + "Triangulation.h", A + "Mesh.h"],
     [("verdict", A + "MeshChecker.h"), ("accumulated mesh area", A + "Mesh.h")], "verdict versus an independent geometric partition test")
prop("C05", "Tri-to-quad conversion conserves the mesh",
     "Converting triangles to quads leaves all boundary edges with their markers, the covered area and every remaining vertex position unchanged, never adds vertices or elements, and yields simple, positively oriented elements that again form a conforming partition. Elements of different colours are never merged, so each colour covers the same area as before.",
     [I, H], "every complete mesh, also after smoothing, refinement, layers and merges, and repeated conversion",
     "One test converts one mesh and looks at the output; conservation per colour and validity need every mesh.",
     [A + "ModificationStrategy.h", A + "MeshCleanup.h"], [("merge of triangle pairs and clean-up", A + "ModificationStrategy.h, " + A + "MeshCleanup.h")], "mesh before and after the conversion")
prop("C06", "Quad refinement splits every element exactly and conformingly",
     "Refinement replaces each triangle by three and each quad by four valid quads that cover it, splits every edge at its midpoint, keeps all former vertices in place and hands the marker of each boundary edge to both halves and the colour of each element to its parts. A refused refinement (mesh with neighbours or incomplete) reports failure and leaves the mesh unchanged.",
     [I, H], "every complete mesh with triangles and convex or concave quads, and repeated refinement",
     "Tests refine a few meshes once; counts, markers and validity for concave quads and repeated refinement are not covered.",
     [A + "RefinementStrategy.h"], [("edge and element splitting", A + "RefinementStrategy.h")], "mesh before and after refinement")
prop("C07", "Smoothing only moves free interior vertices and keeps the mesh valid",
     "Smoothing with any method and parameters keeps vertices, elements and edges with their order, connections, colours and markers; only interior vertices move, and neither fixed vertices, vertices shared with another mesh nor, unless asked for, vertices of quad layers do. When asked for, vertices of quad layers over a straight piece of boundary keep their distance to it. A mesh of valid elements consists of valid elements that cover the same area afterwards.",
     [I, H, C], "every complete mesh, every smoothing method, number of iterations, relaxation and decay parameter",
     "Tests smooth few meshes and do not look at fixed or shared vertices nor at inverted elements.",
     [A + "SmoothingStrategy.h"], [("vertex moves with validity test", A + "SmoothingStrategy.h")], "mesh before and after smoothing")
prop("C08", "Merging meshes conserves elements, areas, colours and boundaries",
     "Merging a mesh into a neighbouring one moves every element, with colour and geometry, into the receiver exactly once, turns their common edges into interior edges without duplicated vertices and keeps all other boundary edges with their markers. Interfaces of the donor with third meshes become interfaces of the receiver; a merge that cannot be carried out reports failure and changes nothing.",
     [I, H], "every arrangement of neighbouring meshes, every order of merges, partial or complete meshes, meshes that do not touch or touch only in points",
     "Tests merge two or three meshes in a fixed arrangement; conservation for other topologies and merge orders is not covered.",
     [A + "MeshMerger.h", A + "MeshGenerator.h"], [("transfer of vertices, edges and elements", A + "MeshMerger.h")], "all meshes of the generator before and after the merge")
prop("C09", "Neighbouring meshes conform along their common boundary",
     "When a domain shares boundary edges with domains that already have a mesh in the same generator, the new mesh uses exactly the vertices of the neighbours along the shared boundary, edge by edge, and both meshes know each other's edges as partners. This conformity survives meshing, smoothing, conversion, quad layers, writing and merging on either side in any order.",
     [I, H], "every arrangement of adjacent domains, in every order of creation and of operations on them",
     "Tests use a fixed arrangement of two or three domains and look at counts.",
     [A + "MeshBuilder.h", A + "MeshMerger.h", A + "QuadLayering.h", A + "SmoothingStrategy.h"], [("twin edges", A + "MeshBuilder.h")], "interface edges of all meshes of the generator after each operation")
prop("C10", "Fixed vertices and fixed edges appear in the mesh and stay",
     "Every fixed vertex and every vertex seeded along a fixed edge of a domain is a vertex of the completed mesh at its exact position, and remains there through layers, clean-up, smoothing, conversion, refinement and merging. Fixed edges are seeded along their whole length from one end point to the other in steps that follow the size function.",
     [I, H], "every set of fixed vertices and edges inside every domain, every sequence of operations",
     "Tests place few fixed vertices in simple domains and do not follow them through later operations.",
     [A + "Domain.h", A + "MeshBuilder.h", A + "MeshCleanup.h", A + "SmoothingStrategy.h", A + "QuadLayering.h"], [("fixed vertex property", A + "Vertex.h"), ("seeding", A + "MeshBuilder.h")], "mesh vertices versus the fixed vertices of the domain")
prop("C11", "Quad layers are built as requested and leave a meshable domain",
     "A quad layer requested along a closed convex boundary, or along a section of it, with room for it consists of the requested number of rows of valid, non-overlapping quads on the boundary edges between the start and the end position only, whose distances from the boundary follow first height and growth rate. The layer keeps boundary, markers and element colour, and the remaining domain can then be triangulated to a complete mesh that contains the layer.",
     [I, C], "every convex polygon as exterior or interior boundary, start and end vertex, number of layers, height and growth rate within the room available",
     "Tests generate a few layers on fixed domains and look at counts or pictures.",
     [A + "QuadLayering.h", A + "MeshGenerator.h"], [("layer projection and front advance", A + "QuadLayering.h")], "mesh after the layer and after the following triangulation")
prop("C12", "Text mesh files describe the mesh faithfully",
     "A mesh written as text, to a file or the console, lists in the documented sections all vertices, interior, boundary, interface and front edges with their adjacent elements and markers, all elements with vertices and colours, their neighbours and the size function at the vertices, each exactly as in the mesh up to the printed precision and with consistent indices. Writing does not change the mesh, works at every stage of the generation, and reports failure if the file cannot be written.",
     [I, H, F], "every mesh at every stage (initial, partial, incomplete, complete, refined, merged, with neighbours), every file name",
     "Tests write files but never read them back.",
     [A + "MeshWriter.h", A + "MeshCleanup.h"], [("text writer", A + "MeshWriter.h")], "parsed file versus the mesh in memory")
prop("C13", "VTU mesh files describe the mesh faithfully",
     "A mesh written as VTU contains every vertex with its size function value, quad layer and fixed flag, and every element with its vertices, type and colour and its longest edge and largest angle as computed from its geometry, in one consistent file whose counts and offsets agree. Writing does not change the mesh and reports failure if the file cannot be written.",
     [I, H, F], "every mesh at every stage, every file name",
     "Tests write files but never read them back.",
     [A + "MeshWriter.h", "src/utils/VtkIO.h"], [("VTU writer", A + "MeshWriter.h, src/utils/VtkIO.h")], "parsed file versus the mesh in memory")
prop("C14", "The spatial container behaves like a plain list with geometric queries",
     "After every sequence of insertions, removals, moves, sorting and clean-up, the container holds exactly the live items in order, and rectangle, circle, filtered and nearest-item queries return exactly what a search over all items returns. Removed items are notified and never found again, and every item is destroyed exactly once.",
     [I, H, C], "every operation sequence, tree scale, leaf capacity and depth, coordinates on cell borders and coincident items included",
     "Tests insert points and query a few rectangles; borders of cells, moves across leafs and removal histories are not sampled.",
     ["src/utils/Container.h", "src/utils/QuadTree.h"], [("quad tree splitting and merging", "src/utils/QuadTree.h"), ("deferred deletion", "src/utils/Container.h")], "API of the container versus a list model")
prop("C15", "The size function combines user function and local sizes as documented",
     "The element size a domain reports at any point is the minimum of the user function and of the local size requests of boundary edges and of boundary and fixed vertices, each fading out with the distance over its range; it is positive, never exceeds the user function and does not change by meshing. The exported size function lists these values on the requested grid.",
     [I, C], "every domain, user function, set of local sizes and ranges, and point",
     "Tests evaluate the function at few points.",
     [A + "Domain.h", A + "Domain.h"], [("minimum over vertices and edges", A + "Domain.h")], "values returned versus an independent formula")
prop("C16", "Invalid input is refused cleanly",
     "Invalid domains (no boundary, no exterior boundary, boundaries that are empty, open, self-intersecting or crossing each other) yield an empty mesh that cannot be triangulated and is never reported complete; unreadable boundary files raise an error with a message and leave the boundary unchanged; non-positive or undefined size values, meshes of other generators and unwritable files are reported as errors. After a refused request the generator works as before.",
     [I, F], "every kind of invalid domain, boundary file, size function, foreign mesh and output path",
     "Tests contain a few valid inputs and hardly any invalid ones.",
     [A + "EntityChecks.h", A + "Boundary.h", A + "MeshGenerator.h", A + "MeshBuilder.h"], [("domain validity", A + "EntityChecks.h"), ("CSV reader", A + "Boundary.h")], "return values, exceptions, exit status and resulting meshes")
prop("C17", "No memory errors or undefined behaviour in any workload",
     "No sequence of public calls on well-formed input reads or writes memory out of bounds or after release, uses null references, misuses containers or iterators, overflows or relies on other undefined behaviour, and every call terminates. This holds for meshing, layers, modification, merging, file output, the spatial container and refused input alike.",
     [I, H], "every sequence of public operations on valid and refused input",
     "Tests run without sanitizers on few inputs; dangling facets, edges and vertices only show up for particular geometries and histories.",
     ["src/utils/Container.h", A + "Mesh.h", A + "FrontUpdate.h", A + "QuadLayering.h", A + "MeshMerger.h", A + "MeshCleanup.h"], [("deferred deletion of entities", "src/utils/Container.h"), ("raw pointers between entities", A + "Edge.h, " + A + "Facet.h")], "AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions over all workloads")
prop("C18", "Results are reproducible and independent of unrelated history",
     "Equal input gives the same mesh, vertex by vertex and element by element, in every run, regardless of other meshes in the generator or process that are not adjacent and of fixed vertices or edges that were added and removed again. Operations on one mesh never change another one that is not its neighbour.",
     [H, I], "every input and every unrelated prior history in the same process and generator",
     "Tests run every case once.",
     [A + "MeshGenerator.h", A + "Triangulation.h", A + "Domain.h"], [("algorithm objects kept per mesh", A + "MeshGenerator.h"), ("ordering of fronts and queries", A + "Front.h, src/utils/QuadTree.h")], "hashes over complete meshes of repeated runs")
prop("C21", "Boundary shapes and lists produce exactly the described edges",
     "Defining a boundary from coordinates, from a file or as square, rectangle, triangle or circle produces a closed chain of exactly the described edges, with the right orientation for exterior and interior boundaries, in either order of the given list, each edge and vertex carrying its own marker, size and range. Shapes have the requested centre, extent and number of segments.",
     [I, C], "every list of coordinates in either orientation, markers, sizes, shapes and their parameters",
     "Tests define a few shapes and look at counts or areas.",
     [A + "Boundary.h"], [("re-orientation of lists", A + "Boundary.h"), ("shape construction", A + "Boundary.h")], "edges of the boundary versus the request")
prop("C24", "Geometric predicates and point location agree with exact arithmetic",
     "Orientation, segment, triangle, quad and rectangle containment, intersection and crossing tests, areas and distances return what exact arithmetic gives whenever the answer is not within rounding distance. Asking a domain whether a point lies inside gives the right answer for every point off the boundary, holes included.",
     [I], "every combination of points, including coincident, collinear and touching configurations, and every domain",
     "Tests contain few positions per predicate.",
     ["src/utils/Geometry.h", A + "Domain.h", A + "EdgeList.h"], [("predicates", "src/utils/Geometry.h"), ("ray casting", A + "EdgeList.h")], "return values versus exact evaluation")
prop("C25", "Well-posed domains are meshed completely",
     "For every well-posed domain - any simple exterior boundary with any number of separate holes, local sizes, fixed vertices and fixed edges, a smooth size function, alone or next to meshes of neighbouring domains - the triangulation reports success and leaves a complete mesh, whether called once or repeatedly for portions of the elements. The same holds for the exhaustive search for domains without fixed interior vertices, with and without holes.",
     [I, H, C], "every well-posed domain and size function, every division of the generation into portions",
     "Tests and examples mesh a dozen domains; whether the front gets stuck depends on how fronts of very different edge lengths meet.",
     [A + "Triangulation.h", A + "FrontUpdate.h", A + "Front.h", A + "MeshingStrategy.h"], [("advancing front loop, wide and exhaustive search", A + "Triangulation.h"), ("validity tests of new triangles", A + "FrontUpdate.h")], "return value of the triangulation and independent completeness of the mesh")
prop("C26", "The resolution of the mesh follows the size function",
     "A new mesh divides every edge of the domain into as many boundary edges as element sizes fit along it (up to rounding to a whole number), none of them much longer than the element size where it lies. In a complete triangulation the lengths of the interior edges and the number of elements follow the size function within a constant factor: edges are on average one to two times as long as the element size, none is longer or shorter by an order of magnitude.",
     [I, C], "every well-posed domain and every smooth size function, with local sizes at boundary vertices and fixed vertices",
     "Tests look at element counts of single meshes, if at all.",
     [A + "Front.h", A + "Triangulation.h", A + "FrontUpdate.h"], [("division of boundary edges", A + "Front.h"), ("position of new vertices", A + "Triangulation.h")], "edge lengths versus an independent evaluation of the size function")
prop("C27", "Vectors, matrices and numeric helpers follow their algebra",
     "Vector operations (component-wise and scalar arithmetic in all forms, dot and cross product, norm, sum, product, extrema, angle, comparison) return what the components dictate for every component type and dimension, and copies, moves and named components never refer to another vector. A matrix keeps its dimensions and entries through creation, assignment, exchange and growth. MIN, MAX, ABS, MOD, CLAMP, EQ and argsort agree with their definitions.",
     [I], "every operand and every sequence of operations without overflow or division by zero",
     "Tests use single operands, mostly integers stored as floating point numbers.",
     ["src/utils/VecND.h", "src/utils/Matrix.h", "src/utils/MathUtility.h", "src/utils/Helpers.h"], [("vector operations", "src/utils/VecND.h"), ("matrix storage", "src/utils/Matrix.h")], "results of operations versus a plain array model")
prop("C28", "Log messages reach the configured stream exactly once",
     "Every message of a level that is not above the configured log level appears exactly once, completely and in order, with the configured header and line end, on the stream or in the file configured for its level; messages above the log level leave no trace. Colour codes enclose a message exactly if colours are enabled, never change its text and never reach a file. Changing a setting affects exactly the messages after it.",
     [I, H], "every sequence of settings and messages",
     "Tests print a few messages and do not look at the output.",
     ["src/utils/Log.h"], [("message composition", "src/utils/Log.h")], "captured streams and log files versus a model of the settings")
prop("C29", "Domain definitions can be edited at will",
     "After any sequence of adding, splitting, clearing, re-defining and removing boundaries, their edges, vertices, fixed vertices and fixed edges, a domain is exactly what the remaining definitions describe: its boundaries consist of the remaining edges in order and with their markers, searches and traversals find them, its area, size function and inside test are those of the remaining boundaries, and it is meshed exactly like a domain that was defined this way in the first place.",
     [I, H], "every sequence of edits of a domain",
     "Tests build domains once; removal is tested for one boundary without looking at the area or meshing the result.",
     [A + "Domain.h", A + "Boundary.h", A + "EdgeList.h"], [("boundary and fixed entity management", A + "Domain.h"), ("edge insertion, removal and splitting", A + "EdgeList.h")], "state of the domain after each edit versus a list model, and the mesh of the final state versus that of a new domain")
prop("C30", "Stored measures and positions follow the coordinates",
     "At every stage of a mesh, the measures its elements and edges report - area, centroid, edge lengths, angles, their extrema and the circumcircle of elements, length, tangent, normal and middle of edges - are those of the present coordinates of their vertices, angles being measured between adjacent edges. Searching the mesh at the position of a vertex or element finds it, and every element names the mesh that holds it.",
     [I, H, C], "every mesh at every stage, after every meshing, smoothing, conversion, refinement, layer and merge operation on it or on neighbouring meshes",
     "Tests compare the measures of a few hand-made elements; after vertices were moved or elements handed to another mesh nothing looks at them, although all later operations build on them.",
     [A + "Triangle.h", A + "Quad.h", A + "Edge.h", A + "FacetGeometry.h", A + "MeshCleanup.h", A + "Mesh.h"],
     [("measures", A + "FacetGeometry.h"), ("update after moves", A + "MeshCleanup.h")], "measures of all elements and edges versus their recomputation, location queries")
prop("C19", "Parameter files are read as written",
     "Reading a parameter file returns every scalar, vector, matrix and block it defines, in order of occurrence and only within the block it stands in, with exactly the values written, irrespective of blanks, brackets, blank lines, comment lines and the order of the definitions. Values left out at the end of a row take the given default; parameters that do not occur are reported as not found, and unknown or doubly defined names and missing files raise errors.",
     [I, C], "every parameter file following the documented grammar and every order of queries",
     "Tests read one small file with fixed content.",
     ["src/utils/ParaReader.h"], [("line search, tokenizer and block ranges", "src/utils/ParaReader.h")], "values returned by the reader versus the generator's model of the file")
prop("C20", "The application produces the mesh its parameter file describes",
     "Running the application on a parameter file writes, for each mesh in it, the mesh that the library generates for the described boundaries, size expression, fixed entities, layers, algorithm, refinements, smoothing and output format, where each mesh is joined with its predecessors into one conforming mesh of all domains. It ends with success exactly if all meshes are complete; otherwise, and for missing mandatory parameters, broken expressions, invalid indices, markers, files or algorithms, it ends with an error message and a failure status, and never crashes.",
     [I, C, F], "every parameter file, valid or defective, with any number of meshes and any combination of boundary definitions and options",
     "No test runs the application.",
     ["src/app/TQMeshApp.h", "src/app/main.cpp", "src/app/size_function.cpp"], [("mesh construction from parameters", "src/app/TQMeshApp.h"), ("size expressions", "src/app/size_function.cpp")], "exit status, messages and files of the application versus the library")
prop("C22", "Conversion to OpenFOAM extrudes the mesh faithfully",
     "The converter turns every complete mesh file into a polyMesh whose cells are the extruded elements: points in two layers at the requested distance, every face listed once with its owner, neighbour (with the larger index) and a normal pointing out of the owner, interior faces first. Each boundary marker yields one patch with exactly its faces, followed by the base and top patches.",
     [I], "every complete mesh written as text, with triangles and quads, any markers, and every extrusion length",
     "The converter has no tests.",
     ["scripts/convert2foam.py"], [("face and patch construction", "scripts/convert2foam.py")], "polyMesh files versus the mesh file")
L.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in L:
        p["anchors"]["files"] = list(dict.fromkeys(p["anchors"]["files"]))
        f.write(json.dumps(p) + "\n")
