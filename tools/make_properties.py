import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/aleph/"
p("C01","Persistence diagrams are the mod-2 barcode of the filtration",
 "For every simplicial complex whose simplices are listed in a filtration order (each simplex after its faces), the diagrams returned by the persistent homology computation contain, in every dimension, exactly one point (weight of creator, weight of destroyer) per pair of the mod-2 persistence pairing and one point at infinity per homology class that never dies. Zero-persistence pairs are part of the diagram, classes of the highest dimension that never die are reported if and only if the caller asked for all unpaired creators, and every diagram carries the dimension of its features.",
 ["inputs","configurations"],"all filtered complexes, weights (negative, tied, arbitrary sign), vertex labels, and settings of the unpaired-creator flag",
 "Tests pin a handful of small complexes and mostly compare Betti numbers; the pairing must be right for every filtration, including ties, disconnected pieces and non-contiguous labels.",
 [I+"persistentHomology/Calculation.hh",I+"persistenceDiagrams/Calculation.hh",I+"topology/Conversions.hh",I+"topology/BoundaryMatrix.hh",I+"persistentHomology/algorithms/Standard.hh",I+"persistentHomology/algorithms/Twist.hh",I+"persistentHomology/PersistencePairing.hh"],
 [("matrix reduction","persistentHomology/algorithms"),("reading off the pairing","persistentHomology/Calculation.hh"),("pairing to diagrams","persistenceDiagrams/Calculation.hh")],
 [("pairing","set of (creator index, destroyer index or unpaired)","PersistencePairing.hh")],"return value of the diagram computation")
p("C02","Results do not depend on algorithm, storage or dualisation",
 "For every filtered complex, the persistence pairing and the persistence diagrams are identical no matter which reduction algorithm is used, which column representation stores the boundary matrix, and whether the matrix is dualised before the reduction. This also holds when all unpaired creators are requested, and when an index bound restricts the pairing to creators below it.",
 ["inputs","configurations"],"all filtered complexes times {standard, twist} x {vector, set, list} x {dualised or not} x flags",
 "Tests sample single configurations on few complexes; the variants touch disjoint code paths (clearing, index reversal, lazy or sorted columns) that only differ on specific column patterns.",
 [I+"persistentHomology/Calculation.hh",I+"persistentHomology/algorithms/Twist.hh",I+"persistentHomology/algorithms/Standard.hh",I+"topology/BoundaryMatrix.hh",I+"topology/representations/Vector.hh",I+"topology/representations/Set.hh",I+"topology/representations/List.hh"],
 [("dualisation and index reversal","topology/BoundaryMatrix.hh, persistentHomology/Calculation.hh"),("clearing","persistentHomology/algorithms/Twist.hh")],None,"pairings and diagrams of all variants")
p("C03","Boundary matrices are mod-2 matrices under any operation history",
 "Every column of a boundary matrix behaves as a set of row indices with addition modulo two: after any history of setting columns, adding columns and clearing columns, reading a column returns exactly the set the history denotes, the reported lowest index is its maximum (or reported as absent if the column is empty), and columns not named by an operation are unchanged. Column dimensions follow the documented rule and stay with the column, dualisation is the anti-transpose (applied twice it restores every column), equality means equal columns, and all representations agree; reading a matrix from a text file yields the matrix the file describes.",
 ["histories","inputs"],"all operation sequences on all matrices in all representations",
 "Unit tests reduce a few fixed matrices; representation bugs depend on the history (cancellation patterns, empty columns, repeated additions).",
 [I+"topology/BoundaryMatrix.hh",I+"topology/representations/Vector.hh",I+"topology/representations/Set.hh",I+"topology/representations/List.hh"],
 [("column addition","topology/representations"),("dualisation","topology/BoundaryMatrix.hh")],[("columns","set of row indices per column","representations/*"),("dimensions","dimension per column","BoundaryMatrix.hh")])
p("C04","Union-find components follow the elder rule and match degree-0 homology",
 "For every filtered complex, the specialised connected-component persistence computation returns the same degree-0 features as the general persistent homology computation: each component is born at its oldest vertex and dies when an edge joins it to an older component, and each final component survives forever. The accompanying pairing names the vertex that created each component and the edge that destroyed it, and the variants that include or skip zero-persistence features differ by exactly these features.",
 ["inputs"],"all filtered complexes (ties, repeated weights, sub- and superlevel filtrations, arbitrary vertex labels)",
 "Depends on merge order, union-find representatives and ties, which a few example graphs do not exercise.",
 [I+"persistentHomology/ConnectedComponents.hh",I+"topology/UnionFind.hh"],
 [("elder rule merge","persistentHomology/ConnectedComponents.hh")])
p("C05","Union-find is the equivalence closure of the merges performed",
 "After any sequence of merge operations, two elements have the same representative exactly when they are connected by merges, the representative belongs to the class, and it is the representative of the class merged into. The list of representatives has one entry per class, extracting a class returns precisely its members, and components of a complex reported through it are the connected components of its edges.",
 ["histories","inputs"],"all element sets and merge histories (including repeated, reversed and self merges)",
 "Path compression mutates hidden state; errors only show after particular histories.",
 [I+"topology/UnionFind.hh",I+"topology/ConnectedComponents.hh"],
 [("find with path compression","topology/UnionFind.hh")],[("parents","parent pointer per element","UnionFind.hh")])
p("C06","A simplicial complex stays consistent under every history of operations",
 "A simplicial complex is an ordered collection of distinct simplices: after any history of appending, inserting, replacing, removing, sorting, completing faces and recomputing weights, its content and order are exactly what the history denotes, and all ways of looking at it (iteration, membership, lookup of a simplex with its stored weight, position, access by position, size, dimension, per-dimension iteration, vertex listing, equality) agree with one another. Adding a simplex that is already present leaves the stored one unchanged, removing a simplex also removes every simplex containing it and nothing else, and completing faces adds exactly the missing faces.",
 ["histories"],"all operation sequences over all simplices and weights",
 "The container maintains several indices at once; an inconsistency needs a specific sequence of mutations followed by a specific query.",
 [I+"topology/SimplicialComplex.hh",I+"topology/Simplex.hh"],
 [("multi-index container","topology/SimplicialComplex.hh"),("weight propagation","recalculateWeights"),("cascading removal","remove")],[("simplices","ordered sequence of distinct weighted simplices","SimplicialComplex.hh")],"public queries after every operation")
p("C07","A simplex is a finite vertex set; its boundary is its facets",
 "A simplex built from any list of vertices denotes the set of these vertices: order and repetition of the input do not matter, equality and hashing depend only on that set, and the comparison is a strict total order in which every face precedes its cofaces. Its dimension is one less than the number of vertices, its boundary enumerates each facet exactly once (none for a vertex), membership and positional access agree with the stored descending vertex sequence, and weights are carried along without influencing identity.",
 ["inputs"],"all vertex lists (any order, duplicates, extreme labels) and weights",
 "Ordering and hashing laws quantify over all pairs and triples of simplices.",
 [I+"topology/Simplex.hh"],[("vertex normalisation","Simplex constructors"),("boundary iterator","topology/Simplex.hh")])
p("C08","Sorting yields a valid filtration in the documented order",
 "Sorting a complex with a provided filtration orders all simplices by the documented key (stored weight, or largest/smallest vertex value for lower and upper stars) and breaks ties so that the order is a strict total order on distinct simplices. Whenever the weights are monotone on the complex, every simplex then comes after all of its faces, regardless of the order before sorting.",
 ["inputs"],"all complexes, weights with ties and signs, vertex functions, and initial orders",
 "Strict-weak-order and face-before-coface laws must hold for every pair of simplices; tests sort one or two complexes.",
 [I+"topology/filtrations/Data.hh",I+"topology/filtrations/LowerStar.hh",I+"topology/filtrations/UpperStar.hh",I+"topology/filtrations/Degree.hh",I+"topology/SimplicialComplex.hh"],
 [("comparison functors","topology/filtrations"),("sort","topology/SimplicialComplex.hh")])
p("C09","Vietoris-Rips expansion is exactly the weighted flag complex",
 "Expanding a weighted graph to dimension d yields exactly the simplices whose vertices are pairwise adjacent and which have at most d+1 vertices, each once, keeping the vertices and edges of the graph with their weights. Assigning maximum weights gives every expanded simplex the largest weight of its edges, assigning vertex data gives every simplex the combined value of its vertices, the bottom-up and the top-down expansion agree, and the Vietoris-Rips complex of a point cloud contains precisely the simplices of diameter below the threshold, weighted by diameter and sorted as a filtration.",
 ["inputs","configurations"],"all weighted graphs and point clouds, all target dimensions, all vertex labels",
 "Clique structure and neighbour bookkeeping errors appear only for particular graphs, dimensions or labels.",
 [I+"geometry/RipsExpander.hh",I+"geometry/RipsExpanderTopDown.hh",I+"geometry/RipsSkeleton.hh",I+"geometry/VietorisRipsComplex.hh"],
 [("inductive expansion","geometry/RipsExpander.hh"),("clique based expansion","geometry/RipsExpanderTopDown.hh")])
p("C10","Nearest-neighbour queries are exact and implementation independent",
 "For every point cloud, a radius query returns for each point exactly the points closer than the radius (the point itself included), and a k-nearest-neighbour query returns for each point k distinct points none of which is farther than a point left out, each reported with its true distance at the matching position. The brute-force and the kd-tree based implementations give the same answers for every supported metric.",
 ["inputs","configurations"],"all point clouds (duplicates, different neighbourhood sizes), radii, k and metrics",
 "Wrong bookkeeping only shows when neighbourhood sizes differ between points or for particular metrics.",
 [I+"geometry/BruteForce.hh",I+"geometry/FLANN.hh",I+"geometry/NearestNeighbours.hh",I+"geometry/distances/Euclidean.hh",I+"geometry/distances/Manhattan.hh",I+"geometry/distances/Hamming.hh",I+"geometry/RipsSkeleton.hh"],
 [("radius and k-NN search","geometry/BruteForce.hh, geometry/FLANN.hh"),("distance conversion","geometry/distances/Traits.hh")])
p("C11","Cech complexes and beta-skeletons match their geometric definition",
 "The Cech complex of a point cloud at radius r contains a simplex exactly when the smallest ball enclosing its points has radius at most r, is closed under faces, and weights each simplex by the diameter of that ball. The beta-skeleton contains an edge exactly when no other point lies in the region beta prescribes for its end points, and edges carry the distance of their end points.",
 ["inputs"],"all planar or spatial point clouds, radii and beta values of at least one",
 "Geometric predicates depend on the configuration of all points; tests use one sample each.",
 [I+"geometry/CechComplex.hh",I+"geometry/BetaSkeleton.hh"],[("enclosing ball predicate","geometry/CechComplex.hh"),("empty region test","geometry/BetaSkeleton.hh")])
p("C12","Dowker and witness complexes are exactly what their relation defines",
 "Given a weighted directed graph, the admissible pairs are exactly the pairs of nodes within the distance bound under shortest-path completion, and the sink and source complexes contain exactly the simplices (up to the requested dimension) whose vertices share a common base point, weighted by the best base point. A witness complex contains exactly the landmark edges having a witness under the relaxed nearest-landmark rule, weighted by the best witness, together with their flag completion. Landmarks chosen by the max-min strategy each maximise the distance to the landmarks chosen before them.",
 ["inputs","configurations"],"all weight matrices, distance bounds, point clouds, landmark choices, nu, R and dimensions",
 "Results depend on asymmetries, ties and unreachable nodes that a single example does not contain.",
 [I+"geometry/DowkerComplex.hh",I+"geometry/WitnessComplex.hh"],[("shortest path completion and base points","geometry/DowkerComplex.hh"),("witness relation","geometry/WitnessComplex.hh")])
p("C13","A cover tree keeps its invariants after any insertion sequence",
 "After inserting any sequence of points, a cover tree contains every inserted point exactly once, its level structure satisfies the covering, separation and nesting invariants for the chosen metric, and the structure's own validity checks report success. Reported levels and node listings agree with one another.",
 ["histories","inputs"],"all insertion sequences of distinct points in any metric space",
 "Level promotion depends on the insertion history; the tests insert a few fixed sequences.",
 [I+"geometry/CoverTree.hh"],[("insertion with root promotion","geometry/CoverTree.hh")],[("tree","nodes with levels and children","CoverTree.hh")])
p("C14","Clique enumeration and clique graphs are complete and exact",
 "For every graph, each maximal-clique enumeration returns every maximal clique exactly once and nothing else, and different algorithms return the same cliques. The k-clique graph has one node per k-simplex and connects two of them exactly if they share a face with k vertices, edges and nodes carrying the documented weights. Intersecting two simplices, or a simplex with a complex, yields exactly the common faces.",
 ["inputs"],"all graphs (isolated vertices, disconnected, dense), all k, arbitrary labels",
 "Backtracking and pivoting errors lose or duplicate cliques only on particular graphs.",
 [I+"topology/MaximalCliques.hh",I+"topology/CliqueGraph.hh",I+"topology/Intersections.hh"],[("branch and bound enumeration","topology/MaximalCliques.hh"),("shared-face test","topology/CliqueGraph.hh, topology/Intersections.hh")])
p("C15","Graph distances and degrees are exact for every complex",
 "All-pairs shortest path distances of a complex are the exact minimal sums of edge weights (zero on the diagonal, symmetric, infinite precisely between different components). Degree-type quantities computed from a complex (vertex degrees, number of higher-dimensional neighbours, combinatorial curvature) count exactly the incident simplices the definition names.",
 ["inputs"],"all weighted complexes, including isolated vertices, several components and arbitrary vertex labels",
 "Symmetric storage and index translation errors require particular labels, sizes or component structures.",
 [I+"topology/FloydWarshall.hh",I+"math/SymmetricMatrix.hh",I+"topology/filtrations/Degree.hh",I+"topology/CombinatorialCurvature.hh"],[("relaxation","topology/FloydWarshall.hh"),("triangular storage","math/SymmetricMatrix.hh")])
p("C16","Constructions on complexes have the right simplices and homology",
 "Skeleton, filter, cone, suspension and barycentric subdivision of any complex produce exactly the simplices their definition prescribes, with retained simplices keeping their weights and new ones receiving the documented weights. Consequently a cone is acyclic, a suspension shifts reduced homology up by one degree, a subdivision preserves homology, the k-skeleton keeps homology below degree k, and each result is again closed under taking faces.",
 ["inputs"],"all finite simplicial complexes",
 "Homological guarantees quantify over all complexes; tests check spheres and triangles.",
 [I+"topology/QuotientSpaces.hh",I+"topology/BarycentricSubdivision.hh",I+"topology/Skeleton.hh",I+"topology/Filter.hh"],[("cone and suspension","topology/QuotientSpaces.hh"),("subdivision","topology/BarycentricSubdivision.hh")])
p("C17","The spine is a collapse: same homology, no free faces, subcomplex",
 "For every complex, the computed spine is a subcomplex reached by a sequence of elementary collapses: it is closed under taking faces, keeps the weights of the retained simplices, has the same homology as the input and contains no principal simplex with a free face. The fast and the simple implementation both satisfy this, and the cofaces, principal simplices and free faces they determine are those of the complex.",
 ["inputs","schedules"],"all complexes and all orders in which free faces are collapsed",
 "The order of collapses is data dependent and stale bookkeeping shows only for particular configurations.",
 [I+"topology/Spine.hh"],[("principal/free face bookkeeping","topology/Spine.hh")])
p("C18","Intersection homology and partition-restricted persistence are exact",
 "For every complex, stratification and perversity, persistent intersection homology uses exactly the chains whose simplices and boundaries satisfy the perversity condition and reports the persistence of that restricted chain complex, with dualisation making no difference. Splitting a complex by a predicate keeps each part in filtration order and puts all satisfying simplices first.",
 ["inputs","configurations"],"all filtered complexes, filtrations by skeleta (strata), perversities and dualisation settings",
 "Allowability depends on intersections with every stratum; tests contain three fixed spaces.",
 [I+"persistentHomology/PhiPersistence.hh",I+"topology/Intersections.hh"],[("allowability predicate","persistentHomology/PhiPersistence.hh"),("restricted reduction","persistentHomology/Calculation.hh")])
p("C19","Persistence diagrams behave as multisets of points under any history",
 "A persistence diagram is a multiset of points: after any history of adding points, merging, and removing diagonal, unpaired or duplicate points, it contains exactly the points the history denotes with their multiplicities and its dimension. Size, Betti number (number of points at infinity) and, for diagrams without points at infinity, total persistence, p-norms and infinity norm are the corresponding functions of this multiset, and diagrams with different multisets never compare equal.",
 ["histories","inputs"],"all operation sequences on all diagrams",
 "Erase-remove and merging errors depend on multiplicities and orders of points.",
 [I+"persistenceDiagrams/PersistenceDiagram.hh",I+"persistenceDiagrams/Norms.hh",I+"persistenceDiagrams/Extraction.hh"],[("point container","persistenceDiagrams/PersistenceDiagram.hh")],[("points","multiset of (x,y)","PersistenceDiagram.hh")])
p("C20","Bottleneck and Wasserstein distances are optimal matchings",
 "For any two finite persistence diagrams, the p-Wasserstein distance is the p-th root of the minimum, over all matchings in which points may also be matched to the diagonal, of the total p-th power cost; it is therefore symmetric, zero for equal diagrams (including empty ones), insensitive to point order and to points on the diagonal, and the same holds for other costs such as squared Euclidean distances; diagrams of different dimensions are refused. For diagrams of equal size whose points all lie at least as far from the diagonal as the smallest achievable largest cost of a one-to-one matching, the bottleneck distance is that cost, and for all diagrams of equal size it does not exceed it.",
 ["inputs"],"all pairs of finite diagrams, including empty, of different sizes, with duplicates, and all powers",
 "Optimality quantifies over all matchings of all inputs; tests compare a few values.",
 [I+"persistenceDiagrams/distances/Bottleneck.hh",I+"persistenceDiagrams/distances/Wasserstein.hh",I+"persistenceDiagrams/distances/detail/Orthogonal.hh",I+"persistenceDiagrams/distances/detail/Munkres.hh"],[("matching graph","persistenceDiagrams/distances/Bottleneck.hh"),("cost matrix","persistenceDiagrams/distances/Wasserstein.hh")])
p("C21","The assignment solver returns a minimum-cost perfect matching",
 "For every square cost matrix, the assignment solver marks exactly one entry in every row and every column, and the total cost of the marked entries is the minimum over all permutations. The reported minimum cost equals that total.",
 ["inputs"],"all square non-negative cost matrices (ties, zeros, equal rows)",
 "Optimality quantifies over all permutations; the star/prime bookkeeping fails only on particular matrices.",
 [I+"persistenceDiagrams/distances/detail/Munkres.hh",I+"persistenceDiagrams/distances/detail/Matrix.hh"],[("star/prime/cover steps","persistenceDiagrams/distances/detail/Munkres.hh")])
p("C22","Point-set distances between diagrams follow their definitions",
 "For any two diagrams, the Hausdorff distance, the nearest-neighbour distance and the sum-of-minimum-distances between them equal the values prescribed by their definitions over the points of both diagrams, for the maximum metric as well as for squared Euclidean distances. They are symmetric, do not depend on the order of points, vanish for equal diagrams and are zero if both diagrams are empty (the Hausdorff distance being infinite if exactly one is).",
 ["inputs"],"all pairs of finite diagrams",
 "Min/max roles and one-sided computations agree on symmetric examples and differ only on asymmetric ones.",
 [I+"persistenceDiagrams/distances/Hausdorff.hh",I+"persistenceDiagrams/distances/NearestNeighbour.hh",I+"persistenceDiagrams/distances/PointSet.hh",I+"geometry/distances/Infinity.hh"],[("one-sided distances","persistenceDiagrams/distances")])
p("C23","Step functions and persistence indicator functions are exact",
 "A step function built from non-overlapping pieces evaluates to the value of the piece containing the argument and to zero elsewhere, and sums, differences, negation, scaling, absolute value, powers, integrals, supremum and normalisation agree with these operations on functions at every argument that is not an end point, for any sequence of such operations. The persistence indicator function of a diagram whose points lie on one side of the diagonal evaluates, at every threshold that is not an end point, to the number of points whose interval contains the threshold.",
 ["inputs","histories"],"all step functions, operation sequences and finite diagrams",
 "Interval splitting has many end-point cases; tests add two or three functions.",
 [I+"math/StepFunction.hh",I+"persistenceDiagrams/PersistenceIndicatorFunction.hh"],[("interval merging","math/StepFunction.hh"),("event sweep","persistenceDiagrams/PersistenceIndicatorFunction.hh")])
p("C24","Piecewise linear function arithmetic is pointwise exact",
 "A piecewise linear function interpolates its samples exactly and is zero outside of its domain, and sums, differences, scaling, absolute value, maximum and integrals (of the absolute value, and of its powers) agree pointwise with these operations on functions for any sequence of such operations on functions that share the ends of their domains or vanish there.",
 ["inputs","histories"],"all piecewise linear functions and operation sequences",
 "Domain merging and zero crossings have many order-dependent cases.",
 [I+"math/PiecewiseLinearFunction.hh"],[("domain merge","math/PiecewiseLinearFunction.hh")])
p("C25","File readers produce exactly the complex the file describes",
 "Reading a well-formed, non-empty file in a supported format (edge list, adjacency matrix, bipartite matrix, GML, Pajek, lexicographic triangulation, function values, matrix, HDF5 matrix, PLY, VTK, sparse adjacency lists, spectrum, GraphML) yields exactly the vertices, edges, higher simplices, weights and labels the file describes, including negative and fractional weights, and comments and blank lines where the format allows them. The generic reader dispatches on the file extension and gives the same result as the format's own reader; files that do not exist are refused. For formats that derive edge weights from vertex values it honours the caller's weight functor.",
 ["inputs","configurations"],"all well-formed files of each format and reader settings",
 "Tests read one sample per format; labels, signs, separators, isolated nodes and options vary freely.",
 [I+"topology/io/EdgeLists.hh",I+"topology/io/AdjacencyMatrix.hh",I+"topology/io/BipartiteAdjacencyMatrix.hh",I+"topology/io/GML.hh",I+"topology/io/Pajek.hh",I+"topology/io/LexicographicTriangulation.hh",I+"topology/io/Function.hh",I+"topology/io/Matrix.hh",I+"topology/io/PLY.hh",I+"topology/io/VTK.hh",I+"topology/io/SparseAdjacencyMatrix.hh",I+"topology/io/FlexSpectrum.hh",I+"topology/io/GraphML.hh",I+"topology/io/HDF5.hh",I+"topology/io/SimplicialComplexReader.hh",I+"utilities/String.hh"],[("parsers","topology/io")])
p("C26","Reader objects carry nothing over from one file to the next",
 "Reading a file with a reader object that has already read other files gives the same complex, labels and attributes as reading it with a fresh reader. Attributes reported by a reader always describe the most recently read file.",
 ["histories"],"all sequences of files read by one reader object, in all formats",
 "Stale state needs at least two reads with particular differences between the files.",
 [I+"topology/io/EdgeLists.hh",I+"topology/io/GML.hh",I+"topology/io/Pajek.hh",I+"topology/io/SparseAdjacencyMatrix.hh",I+"topology/io/FlexSpectrum.hh",I+"topology/io/GraphML.hh",I+"topology/io/Matrix.hh",I+"topology/io/AdjacencyMatrix.hh"],[("reader member state","topology/io")],[("label and attribute maps","members of reader classes","topology/io")])
p("C27","What is written can be read back unchanged",
 "A graph written as GML and read back has the same vertices, edges and edge weights; persistence diagrams written as JSON or as text and read back have the same points (including points at infinity) and dimensions; a point cloud written as text and read back is equal to the original (numbers with at most six significant digits). Boundary matrices, diagrams and point clouds read from text contain every line of the file except for comments and blank lines, whether or not the last line is terminated; files that cannot be opened are refused. Drawings of a complex as lines and points or as TikZ code contain exactly its vertices, edges and triangles at the given coordinates.",
 ["inputs"],"all graphs, diagrams, point clouds and drawn complexes with representable values",
 "Round trips must hold for every sign, size, infinity and label; tests use one example.",
 [I+"topology/io/GML.hh",I+"persistenceDiagrams/io/JSON.hh",I+"persistenceDiagrams/io/Raw.hh",I+"containers/PointCloud.hh",I+"persistenceDiagrams/PersistenceDiagram.hh",I+"topology/BoundaryMatrix.hh",I+"topology/io/LinesAndPoints.hh",I+"topology/io/TikZ.hh"],[("writers and readers","topology/io/GML.hh, persistenceDiagrams/io, containers/PointCloud.hh")])
p("C28","Point clouds store, return and combine exactly the given points",
 "A point cloud returns for every index exactly the coordinates last stored there, unaffected by writes to other indices, copies, moves or concatenation, and rejects indices and points of the wrong dimension without changing anything. Concatenation lists the points of both operands in order, and equality is coordinate-wise. The lens depth of a point is the number of pairs of other points whose lens contains it, its eccentricity of order p is the p-mean of its distances to all points (the largest one for order zero), and its distance to a measure is the negated sum of its k smallest distances divided by the number of points; the truncated Gaussian density for bandwidth one is the sum of exp(-d^2/2) over the points within distance one, divided by the number of points.",
 ["histories","inputs"],"all histories of point cloud operations and all point sets",
 "Index arithmetic and ownership errors need particular sizes and operation sequences.",
 [I+"containers/PointCloud.hh",I+"containers/DataDescriptors.hh"],[("flat storage with stride","containers/PointCloud.hh"),("lens depth counting","containers/DataDescriptors.hh")])
p("C29","Half-edge mesh queries match the faces that were added",
 "After adding vertices and consistently oriented faces in any order (no vertex having further faces besides a closed fan around it), the mesh reports exactly these vertices and faces, neighbours of a vertex are the vertices sharing an edge with it, an edge exists exactly if some face has it, higher and lower neighbours partition the neighbours by value, the star and link are those of the triangulation, and the number of connected components is right.",
 ["histories","inputs"],"all consistently oriented surface meshes with or without boundary and all insertion orders",
 "Boundary cases depend on the order in which faces close around a vertex.",
 [I+"topology/Mesh.hh"],[("half-edge linking","topology/Mesh.hh")])
p("C30","Persistence hierarchy is a forest consistent with degree-0 persistence",
 "For every filtered complex, the extended persistence hierarchy's pairing is the degree-0 pairing of the filtration by the elder rule (one entry per vertex, unpaired for one vertex per component), and its edges form a forest on the creators in which every creator destroyed with non-zero persistence has exactly one parent, a creator of the component it is merged into.",
 ["inputs"],"all filtered complexes with distinct or tied weights",
 "Interlevel-set connectivity decisions depend on the whole filtration.",
 [I+"persistentHomology/ExtendedPersistenceHierarchy.hh"],[("hierarchy construction","persistentHomology/ExtendedPersistenceHierarchy.hh")])
p("C31","Euler characteristic is the alternating count and equals Betti numbers",
 "For every complex, the Euler characteristic equals the alternating sum of the numbers of simplices per dimension, hence the alternating sum of Betti numbers, and the Euler characteristic obtained from persistence diagrams containing all classes agrees with it at every threshold. The persistent Euler characteristic is the alternating sum of the persistences of all finite points; signs follow the dimensions of the diagrams, whichever are given and in whatever order.",
 ["inputs"],"all complexes and filtrations",
 "Quantifies over all complexes and thresholds; no test covers it.",
 [I+"persistentHomology/EulerCharacteristic.hh"],[("alternating sum","persistentHomology/EulerCharacteristic.hh")])
p("C32","Diagram kernels and density estimates have their defined values",
 "The multi-scale kernel of two persistence diagrams is the sum over all pairs of points of the heat kernel minus its value at the mirrored point, and the linear kernel embedding is the sum over all pairs of weights times point kernel; both are symmetric and do not depend on the order of points. The induced pseudo-metric is the root of K(D,D) + K(E,E) - 2 K(D,E), is zero and never undefined for diagrams with equal points, and the Gaussian kernel is the exponential of minus its square over twice the squared bandwidth. A kernel density estimate at a position is the mean of the scaled kernel (Epanechnikov, Gaussian) over all samples.",
 ["inputs"],"all pairs of diagrams, weights, point kernels and bandwidths; all samples and positions",
 "The test suite only checks inequalities for one pair of diagrams; cancellation depends on the order of points.",
 [I+"persistenceDiagrams/kernels/KernelEmbedding.hh",I+"persistenceDiagrams/kernels/MultiScaleKernel.hh",I+"math/KernelDensityEstimator.hh"],[("sums over pairs of points","persistenceDiagrams/kernels"),("pseudo-metrics","persistenceDiagrams/kernels"),("kernel average","math/KernelDensityEstimator.hh")])
p("C33","Laplacians, heat kernels and bisections are those of the weighted graph",
 "For every weighted graph, the adjacency and Laplacian matrices have exactly the edge weights and degrees of the complex in the order of its sorted vertices, the pseudo-inverse (connected graphs) inverts the Laplacian on vectors with sum zero, and the heat kernel at time t is the exponential of -t times the Laplacian, for all pairs, for single vertices, and in its trace and determinant; its sampling times run in equal ratios from 4 ln 10 over the largest to 4 ln 10 over the smallest non-zero eigenvalue. Spectral bisection divides the vertices into two disjoint sets and returns exactly the simplices of the complex within either set with their weights, cutting weighted paths in the middle and separating two equal cliques that are joined by one light edge; fewer than two vertices are rejected.",
 ["inputs"],"all weighted graphs and complexes with any order of simplices, all times",
 "Tests only check for absence of errors or compare a few signs; indices, degenerate eigenvalues and orders matter.",
 [I+"geometry/HeatKernel.hh",I+"topology/Partitions.hh"],[("matrix assembly and spectra","geometry/HeatKernel.hh"),("partition by median","topology/Partitions.hh")])
p("C34","Enumerations visit every selection exactly once",
 "For every range and every length r, the enumerations of combinations, permutations, circular permutations and reversible (circular) permutations visit every class of selections exactly once and report their number, leave the range in its original order if they run to completion, and stop at the first selection for which the visitor asks to stop, which they report. The closed-form counts equal the number of visited selections or are refused as overflow.",
 ["inputs","histories"],"all ranges, lengths and stopping points",
 "In-place rotations restore the range only after a complete run; tests count one or two sizes.",
 [I+"math/Combinations.hh"],[("in-place rotation of the range","math/Combinations.hh")])
p("C35","Sample statistics, sums and bootstrap intervals equal their definition",
 "Means, (co)variances, standard deviations, skewness, kurtosis and medians of every sample equal their textbook definition, whatever the order and type of container. Compensated sums are as exact as the rounded exact sum under every history of additions, subtractions, multiplications and divisions. Bootstrap replicates are statistics of resamples of the same size, and the percentile, basic and standard-error confidence intervals are those determined by the sorted replicates.",
 ["inputs","histories"],"all samples of numbers, histories of sums, and numbers of replicates",
 "Formulas with small denominators, ties and even sizes, and error compensation under mixed operations need exact oracles.",
 [I+"math/Statistics.hh",I+"math/Quantiles.hh",I+"math/KahanSummation.hh",I+"math/Bootstrap.hh"],[("moments","math/Statistics.hh"),("compensation term","math/KahanSummation.hh"),("quantiles of replicates","math/Bootstrap.hh")])
p("C36","Summaries of diagrams are those of their definition",
 "The envelope of a diagram is the pointwise maximum of the tent functions of its points in rotated coordinates, persistent entropy is the entropy of its normalised persistences (points on the diagonal count nothing), nearest-neighbour area entropy and grid entropy are the entropies of the areas and cell counts they are named after (points in general position with respect to the grid). The mean of diagrams that consist of well separated clusters of corresponding points consists of the cluster means, and has the dimension of the diagrams.",
 ["inputs"],"all diagrams with rational coordinates, all families of diagrams with separated clusters",
 "Degenerate points, ties and grid boundaries decide the result; tests contain one diagram.",
 [I+"persistenceDiagrams/Envelope.hh",I+"persistenceDiagrams/Entropy.hh",I+"persistenceDiagrams/Mean.hh"],[("sweep over rotated points","persistenceDiagrams/Envelope.hh"),("normalised sums","persistenceDiagrams/Entropy.hh"),("iterated matching","persistenceDiagrams/Mean.hh")])
p("C37","Strings, paths, vectors and ranges behave as documented",
 "Trimming removes exactly the leading or trailing white space, splitting returns exactly the tokens between separators, conversion accepts exactly the texts that denote a value of the requested type, formatted numbers are padded to equal width, and base name, stem and extension partition a path. Element-wise arithmetic of vectors equals scalar arithmetic in every position, approximate comparison follows its tolerances, set intersections contain the common elements, and the queries for sorted, increasing and finite ranges are right for every range.",
 ["inputs"],"all short texts over representative characters, all paths, vectors and ranges",
 "Empty tokens, repeated separators, dots in directories and boundary lengths are numerous.",
 [I+"utilities/String.hh",I+"utilities/Filesystem.hh",I+"utilities/Format.hh",I+"utilities/ContainerOperators.hh",I+"utilities/UnorderedSetOperations.hh",I+"utilities/Values.hh"],[("tokenisation","utilities/String.hh"),("path handling","utilities/Filesystem.hh")])
p("C38","Random graphs and surface samples follow their model",
 "A random graph has exactly the requested vertices, no duplicate edges or loops, no edges for probability zero and all of them for probability one; edges occur with the requested frequency, and in weighted graphs the weight of an edge is the length of the run of successes (at least one), with simplices in order of their weights. Points of spheres and tori lie on the surface of the given radii and centre at the given angles, samples have the requested size and valid angles, and their frequency is proportional to the area of the surface.",
 ["inputs"],"all sizes, probabilities, radii and angles",
 "Random outcomes differ in every run; the tests only check sizes.",
 [I+"topology/RandomGraph.hh",I+"geometry/SphereSampling.hh",I+"geometry/TorusSampling.hh"],[("Bernoulli trials","topology/RandomGraph.hh"),("rejection sampling","geometry/TorusSampling.hh")])
p("C39","Estimators for point clouds equal their definition",
 "The correlation integral lists all positive distances in increasing order with the fraction of pairs not farther apart, and the correlation dimension is the slope of the regression line in logarithmic coordinates; dimension estimates from nearest neighbours (simple, regression, maximum likelihood, principal components) and smoothing by the inverse squared distances of the nearest neighbours equal their formulas for every point, independently of the search structure. Principal components are orthonormal, sorted by decreasing singular values, and their weighted outer products are proportional to the scatter matrix. Algebraic spheres have the centre, radius and curvature of their zero set, and curvature estimates for points on a sphere are its inverse radius.",
 ["inputs"],"all point clouds with rational coordinates, neighbourhood sizes and sphere coefficients",
 "Tests compare averages for one data set or print the results.",
 [I+"containers/FractalDimension.hh",I+"containers/DimensionalityEstimators.hh",I+"containers/MeanShift.hh",I+"math/PrincipalComponentAnalysis.hh",I+"math/AlgebraicSphere.hh",I+"geometry/TangentSpace.hh"],[("counts per distance","containers/FractalDimension.hh"),("neighbourhood formulas","containers/DimensionalityEstimators.hh"),("sphere fit","geometry/TangentSpace.hh")])
p("C40","Pairings, sparse matrices and points behave as abstract values",
 "Under every history, a persistence pairing is the sequence of pairs added and not erased: searching returns the first matching pair, equality compares sequences, and unpaired creators have no destroyer. A sparse binary matrix contains exactly the entries set, lists them by column in increasing order, maps indices as configured, and refuses invalid columns and maps of the wrong length. Converting a pairing into diagrams yields one point per pair with the weights of creator and destroyer (infinite if unpaired), grouped by the dimension of the creator, for complexes and for one-dimensional functions; points are equal exactly if all of their coordinates are and are ordered lexicographically.",
 ["histories","inputs"],"all histories of operations and all pairings, functions and points",
 "Missing destroyers, repeated pairs and points of different dimensions need particular combinations.",
 [I+"persistentHomology/PersistencePairing.hh",I+"math/SparseMatrix.hh",I+"persistenceDiagrams/Calculation.hh",I+"persistentHomology/Calculation.hh",I+"geometry/Point.hh"],[("pair list","persistentHomology/PersistencePairing.hh"),("look-up of weights","persistenceDiagrams/Calculation.hh")])
B="bindings/python/aleph.cc"
p("C41","Objects of the Python interface behave as the values they denote",
 "Under every history of calls, a complex built in Python from simplices, lists of vertices or pairs of vertices and weights (or loaded from a file, with an optional function that combines weights) contains exactly the denoted simplices in the denoted order, and membership, indexing, iteration, length, truth value and dimension agree with it. Its diagrams, degree-0 pairings, expansions, norms and indicator functions are those of its filtration, arrays made from diagrams and pairings contain their points in order, step functions follow pointwise arithmetic, and a call changes no object but its target.",
 ["histories","inputs"],"all histories over complexes, diagrams and step functions",
 "The Python tests print results without comparing them; overloads, copies and properties only show in combination.",
 [B],[("wrapped classes",B)])
p("C42","Python functions of matrices and point arrays equal their filtration",
 "For every distance matrix given through Python, the diagrams are those of the Vietoris-Rips filtration up to the requested dimension, the selected edges form a spanning tree of least weight, and the selected cycles consist of all other edges, each with an edge whose weight is the one at which the cycle dies. For every matrix of weights of a bipartite graph, the degree-0 diagram is that of the filtration in the requested direction with the requested replacement of infinite values, and diagrams of point arrays are those of their Vietoris-Rips complex. Results do not depend on the memory layout or numeric type of the array, and arrays of unsupported shape are refused.",
 ["inputs","configurations"],"all matrices and point arrays in all memory layouts",
 "No test calls these functions; edges and cycles are right for many small matrices by coincidence.",
 [B],[("filtration of a matrix",B),("selection of edges and cycles",B)])
T="src/tools/"
p("C43","Programs that exchange diagram files report what the files contain",
 "The programs for graphs and functions write one diagram file per dimension with the diagram of their filtration (by degree or by value, unpaired points replaced as requested), and programs that read such files, in any order and number, report statistics, signatures, indicator functions and their means of exactly the points in the files. The matrix of distances between data sets (files grouped by name, one diagram per dimension, absent ones empty) is symmetric with zero diagonal and contains the Hausdorff, Wasserstein or indicator function distance of the requested power, accumulated over all dimensions, after the requested cleaning, removal of duplicates and replacement of unpaired points.",
 ["histories","inputs","configurations"],"all sequences of program runs on a common directory, with all options",
 "No test runs the programs; file names, options and the state of the directory interact.",
 [T+"graph_analysis.cc",T+"function_analysis.cc",T+"persistence_diagram_statistics.cc",T+"make_signature.cc",T+"persistence_indicator_function.cc",T+"topological_distance.cc"],[("grouping and accumulation","src/tools/topological_distance.cc"),("degree filtration","src/tools/graph_analysis.cc")])
p("C44","Programs for graphs and functions print the topology of their input",
 "For every collection of graphs the programs report the cycle rank of each graph under the number in its file name, the diagrams of the requested degree filtration (largest degree, smallest degree in descending order or sum of degrees; optionally expanded to cliques and normalised per graph) in one file per graph and dimension, closeness centralities, labels and converted graphs. Diagrams of connectivity matrices are those of the filtration by decreasing weight, and clique communities are exactly the classes of cliques within the threshold that are linked through common faces. For functions and spectra the printed diagrams, condensed summaries and transformed spectra are those of the sublevel or superlevel sets.",
 ["inputs","configurations"],"all weighted graphs, matrices, functions and spectra with all options of the programs",
 "No test runs the programs; output that is well-formed but belongs to another filtration looks plausible.",
 [T+"betti_numbers.cc",T+"sparse_adjacency_matrices.cc",T+"connectivity_matrix_analysis.cc",T+"clique_communities_to_json.cc",T+"function_analysis.cc",T+"spectral_analysis.cc"],[("degree filtrations","src/tools/sparse_adjacency_matrices.cc"),("communities","src/tools/clique_communities_to_json.cc")])
p("C45","Programs for point clouds print distances, diagrams, spines and dimensions",
 "For every point cloud the programs print the squared distances of all pairs and the number and total distance of the points within a radius (the point itself included), the persistence diagrams of the Vietoris-Rips complex weighted by eccentricity or density (inverted, normalised or without unpaired points on request), and the Cech complex together with a spine of it. Of a set of image patches exactly the fifth with the largest contrast remains, in its order, each one logarithmic, centred and of unit length. Local dimensions are those of the selected estimator and its parameters, optionally smoothed.",
 ["inputs","configurations"],"all point clouds and patches with all options of the programs",
 "No test runs the programs; options that are ignored or applied in another order still give plausible output.",
 [T+"rips_distributions.cc",T+"point_cloud_data_descriptors.cc",T+"persistent_spines.cc",T+"process_image_patches.cc",T+"local_dimensionality.cc"],[("descriptors","src/tools/point_cloud_data_descriptors.cc"),("patches","src/tools/process_image_patches.cc")])
p("C46","Programs for triangulations, stratified graphs and entropies report their input",
 "For every list of triangulations the program reports Betti numbers and Euler characteristic of each one, and for every perversity exactly once the Betti numbers of the intersection homology of its barycentric subdivision, stratified by skeleta. For every weighted graph or bipartite matrix the program reports the diagram (or its 2-norm) of the components under the selected filtration (by weight or absolute weight, in either direction, with vertices at the extreme weight of all or of adjacent edges), after the selected normalisation, where a component that never ends is closed at the least absolute weight. The entropies printed for a diagram are its nearest-neighbour, grid and persistent entropy.",
 ["inputs","configurations"],"all triangulations of positive dimension, weighted graphs and diagrams with all options of the programs",
 "No test runs the programs; a wrong perversity, direction or vertex weight changes numbers only for particular inputs.",
 [T+"wicked_triangulations.cc",T+"stratified_graph_analysis.cc",T+"persistence_diagram_entropies.cc"],[("perversities","src/tools/wicked_triangulations.cc"),("vertex weights","src/tools/stratified_graph_analysis.cc")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
