#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook or None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="c/graphLib/"
PR=G+"planarityRelated/"
HS=G+"homeomorphSearch/"
small="The suite runs every graph with at most 10 vertices through the library's own result checker and compares only counts, plus a dozen sample files; "
p("C01","Every planar graph is embedded, and the embedding is right",
 "For every simple undirected graph, planarity embedding answers 'embeddable' exactly when the graph is planar. When it does, the graph holds exactly the input's vertices and edges, and the circular order of edges around each vertex is a genus-zero (planar) rotation system of every connected component.",
 ["inputs"],"all simple undirected graphs (connected or not, any vertex numbering, any edge insertion order) within the edge capacity",
 small+"larger graphs, deep bicomp flips/merges, other numberings and insertion orders, and an independent judgement of the embedding are never exercised.",
 [PR+"graphEmbed.c",PR+"graphTests.c",G+"graphDFSUtils.c"],
 [("edge-addition embedding (walkup/walkdown/merge/orient/join)",PR+"graphEmbed.c gp_Embed"),("vertex orientation",PR+"graphEmbed.c _OrientVerticesInEmbedding")],
 [("adjacency list order","rotation system of the embedding"),("embedding result","OK or NONEMBEDDABLE")],["gp_Embed return value and the adjacency lists afterwards"])
p("C02","Every nonplanar graph yields a genuine Kuratowski subgraph",
 "For every simple undirected nonplanar graph, planarity embedding answers 'not embeddable' and leaves in the graph a subset of the input's edges that forms exactly one subdivision of K5 or K3,3, with all other vertices isolated.",
 ["inputs"],"all simple undirected nonplanar graphs, every obstruction minor type, numbering and insertion order",
 small+"the obstruction is judged only by the library itself and only for tiny graphs, where many isolator minors and long subdivided paths do not occur.",
 [PR+"graphNonplanar.c",PR+"graphIsolator.c",PR+"graphEmbed.c"],
 [("minor classification",PR+"graphNonplanar.c _ChooseTypeOfNonplanarityMinor"),("Kuratowski isolation",PR+"graphIsolator.c _IsolateKuratowskiSubgraph")],
 [("remaining edges","the isolated obstruction")],["gp_Embed return value and remaining edges"])
p("C03","Outerplanarity is decided exactly, with embedding or K4/K2,3 witness",
 "For every simple undirected graph, outerplanarity embedding answers 'embeddable' exactly when the graph is outerplanar, and then leaves a planar rotation system of the same graph in which the vertices of every component share one face. Otherwise it answers 'not embeddable' and leaves exactly one subdivision of K4 or K2,3 made of input edges.",
 ["inputs"],"all simple undirected graphs, numberings and insertion orders",
 small+"outerplanar obstructions and embeddings in larger graphs with many blocks are never independently validated.",
 [PR+"graphEmbed.c",PR+"graphOuterplanarObstruction.c",PR+"graphTests.c"],
 [("outerplanar walkdown",PR+"graphEmbed.c _WalkDown"),("outerplanar obstruction",PR+"graphOuterplanarObstruction.c _IsolateOuterplanarObstruction")],
 None,["gp_Embed return value and adjacency lists afterwards"])
p("C04","K2,3 search finds a K2,3 subdivision exactly when one exists",
 "For every simple undirected graph, the K2,3 search reports a find exactly when the graph contains a subgraph homeomorphic to K2,3. On a find, what remains in the graph is exactly one such subdivision made of input edges.",
 ["inputs"],"all simple undirected graphs, numberings and insertion orders, including graphs with many K4 blocks that must be skipped",
 small+"a missed K2,3 beyond 10 vertices, or a reported subgraph that is not a K2,3 subdivision in larger graphs, would not be seen.",
 [HS+"graphK23Search.c",HS+"graphK23Search_Extensions.c",PR+"graphEmbed.c"],
 [("K2,3 search in blocked bicomp",HS+"graphK23Search.c _SearchForK23InBicomp")],None,["gp_Embed return value and remaining edges"])
p("C05","K3,3 search finds a K3,3 subdivision exactly when one exists",
 "For every simple undirected graph, the K3,3 search reports a find exactly when the graph contains a subgraph homeomorphic to K3,3 (so K5-subdivision-only nonplanar graphs are reported as having none). On a find, what remains in the graph is exactly one such subdivision made of input edges.",
 ["inputs"],"all simple undirected graphs, numberings and insertion orders, including graphs glued from many K5 and planar pieces along cut vertices and separation pairs",
 small+"entangled K5/K3,3 structures (merge blockers, straddling bridges, reduced paths that must be restored) mostly need more than 10 vertices.",
 [HS+"graphK33Search.c",HS+"graphK33Search_Extensions.c",PR+"graphIsolator.c"],
 [("K3,3 search in blocked bicomp",HS+"graphK33Search.c _SearchForK33InBicomp"),("merge blocker",HS+"graphK33Search_Extensions.c _K33Search_MergeBicomps")],None,["gp_Embed return value and remaining edges"])
p("C06","K4 search finds a K4 subdivision exactly when one exists",
 "For every simple undirected graph, the K4 search reports a find exactly when the graph contains a subgraph homeomorphic to K4. On a find, what remains in the graph is exactly one such subdivision made of input edges.",
 ["inputs"],"all simple undirected graphs, numberings and insertion orders, including large series-parallel graphs that need many reductions",
 small+"repeated bicomp reductions and path restorations only appear in larger series-parallel graphs.",
 [HS+"graphK4Search.c",HS+"graphK4Search_Extensions.c"],
 [("K4 search and reduction",HS+"graphK4Search.c _SearchForK4InBicomp")],None,["gp_Embed return value and remaining edges"])
p("C07","Planar drawings are valid visibility representations",
 "For every planar graph, the drawing assigns each vertex its own row and a column range, and each edge its own column and a row range, such that each edge runs exactly between the rows of its two endpoints, inside both endpoints' column ranges, and crosses no other vertex. The rendered picture shows exactly that drawing, and a nonplanar graph is refused with a nonplanarity result.",
 ["inputs"],"all simple undirected graphs (including disconnected and edgeless ones), numberings and insertion orders",
 small+"the picture itself is compared for two samples only, and tie-breaking between bicomps in big graphs is judged only by the library's own checker.",
 [PR+"graphDrawPlanar.c",PR+"graphDrawPlanar_Extensions.c"],
 [("vertex/edge positions",PR+"graphDrawPlanar.c _ComputeVisibilityRepresentation"),("rendering",PR+"graphDrawPlanar.c _RenderToString")],
 None,["written drawing section, rendered string"])
p("C08","The result checker accepts right results and rejects wrong ones",
 "The published result-integrity check confirms every correct algorithm result against the original graph. Where the result carries a certificate (an embedding, a drawing or an obstruction), it never confirms a wrong one: a changed edge order that is not planar, a missing or foreign edge, an incomplete or over-large obstruction and a damaged drawing are all refused.",
 ["inputs"],"all pairs of original graph and (possibly corrupted) result, for each algorithm",
 "The suite only ever hands the checker correct results; whether it would notice a wrong one is untested, although every other test relies on it.",
 [PR+"graphTests.c",PR+"graphDrawPlanar.c",HS+"graphK33Search_Extensions.c",HS+"graphK4Search_Extensions.c",HS+"graphK23Search_Extensions.c"],
 [("integrity check",PR+"graphTests.c gp_TestEmbedResultIntegrity"),("face count/Euler",PR+"graphTests.c _CheckEmbeddingFacialIntegrity")],None,["gp_TestEmbedResultIntegrity return value"])
p("C09","Results keep the caller's vertex labels and do not depend on them",
 "After an algorithm runs, restoring the original vertex order gives every edge and every drawing entry under the caller's own vertex numbers, and sorting is its own inverse. Renumbering the vertices or reordering the edges of an input never changes an algorithm's verdict.",
 ["inputs"],"all graphs and all permutations of their vertices and edges, for all six algorithms",
 "Tests use one fixed numbering per graph; a label mix-up that keeps the graph isomorphic is invisible to count comparisons.",
 [G+"graphDFSUtils.c",PR+"graphDrawPlanar_Extensions.c",PR+"graphEmbed.c"],
 [("sorting/unsorting by DFS number",G+"graphDFSUtils.c gp_SortVertices"),("drawing relabel",PR+"graphDrawPlanar_Extensions.c _DrawPlanar_SortVertices")],None,["edges and indices before and after sorting"])
p("C10","Running work grows linearly with graph size",
 "For planar embedding, Kuratowski isolation, outerplanar embedding, drawing and the K2,3, K3,3 and K4 searches, the work done on an N-vertex graph grows in proportion to N plus the number of edges processed: doubling the size of an input of any family about doubles the work.",
 ["inputs"],"growing members of any graph family (paths, stars, grids, triangulations, nested and glued structures, near-planar graphs), any numbering",
 "The tests check answers on tiny graphs only; a quadratic slowdown leaves all of them passing.",
 [PR+"graphEmbed.c",PR+"graphNonplanar.c",PR+"graphDrawPlanar.c",HS+"graphK33Search.c",HS+"graphK4Search.c",G+"graphDFSUtils.c"],
 [("external face short-circuits",PR+"graphEmbed.c _WalkDown"),("parallel face walkup",PR+"graphEmbed.c _WalkUp"),("bucket sorts",G+"graphDFSUtils.c")],None,["executed control-flow edges (instrumented build)"])
p("C11","Runs are repeatable and reused graphs behave like new ones",
 "The same input built the same way gives byte-identical results every time. A graph object that is reinitialised after any earlier use (successful, nonplanar, partial, another algorithm) and refilled behaves exactly like a newly created one.",
 ["histories","inputs"],"all sequences of fill / run / reinitialise on one graph object, for all algorithms",
 "The -t runs reuse one object but only compare verdict counts; stale state that changes an embedding, a witness or a later verdict in bigger graphs is not seen.",
 [G+"graphUtils.c",PR+"graphDrawPlanar_Extensions.c",HS+"graphK33Search_Extensions.c",HS+"graphK4Search_Extensions.c"],
 [("reinitialise",G+"graphUtils.c gp_ReinitializeGraph"),("extension reinitialise",HS+"graphK33Search_Extensions.c _K33Search_ReinitializeGraph")],None,["full textual dump of result after each run"])
p("G01","Graph editing and queries agree with a plain multigraph model",
 "After any sequence of adding, inserting at a chosen position, deleting, directing and capacity-growing operations, the neighbour lists, their order, edge count, adjacency tests and degree queries equal those of a simple reference model, and space of deleted edges is reused before capacity is exhausted. Capacity is as requested or reported, and automatic growth always succeeds while memory allows.",
 ["histories"],"all sequences of public editing and query operations on graphs of any size and capacity",
 "The suite only builds graphs by reading files and deletes edges in one fixed pattern; insertion positions, holes, direction and growth have no tests.",
 [G+"graphUtils.c",G+"graphStructures.h"],
 [("add/insert/delete",G+"graphUtils.c gp_AddEdge gp_InsertEdge gp_DeleteEdge"),("growth",G+"graphUtils.c gp_DynamicAddEdge gp_EnsureArcCapacity")],
 [("edge holes","free edge slots for reuse")],["adjacency walk after every operation"])
p("G02","Hide, contract and identify are exactly undone by restore",
 "Hiding edges or vertices, contracting edges and identifying vertices each have their documented effect on the visible graph, leaving no dangling or duplicated neighbour entries; an operation the graph's stack has no room to record is refused and changes nothing. Restoring in reverse order brings back exactly the original adjacency, including the order of every neighbour list.",
 ["histories"],"all nested sequences of hide / contract / identify followed by restore, at any vertex position and degree",
 "No test in the suite calls these operations directly; the algorithms exercise only fragments of them.",
 [G+"graphUtils.c"],[("identify/contract/restore",G+"graphUtils.c gp_IdentifyVertices gp_ContractEdge gp_RestoreVertices"),("hide/restore edge",G+"graphUtils.c gp_HideEdge gp_RestoreEdge gp_HideVertex")],
 [("hide/identify stack","record needed to undo")],["adjacency walk before/after"])
p("G03","Depth-first numbering, edge classes and lowpoints are correct",
 "The depth-first search utilities give every vertex a unique number, a parent forest in which each non-tree edge joins an ancestor and a descendant, and each edge end the matching class. Least-ancestor and lowpoint values equal their mathematical definition.",
 ["inputs"],"all undirected graphs, connected or not, before and after sorting",
 "These values are never observed by any test; errors that cancel out on small graphs or only affect other users of the utilities stay invisible.",
 [G+"graphDFSUtils.c"],[("DFS tree",G+"graphDFSUtils.c gp_CreateDFSTree"),("lowpoint",G+"graphDFSUtils.c gp_LowpointAndLeastAncestor")],None,["vertex index/parent/least ancestor/lowpoint and edge types"])
p("G04","Copies are equal at first and independent for ever after",
 "Copying or duplicating a graph in any state gives a graph with the same vertices, edges, order, attributes and attached feature data. Afterwards either one can be changed, processed, detached or freed without any effect on the other.",
 ["histories"],"all graph states (empty, edited with deleted slots, embedded, obstruction, drawn) and all later operations on either copy, in any order including freeing the source first",
 "The suite copies only freshly read graphs, to feed the checker, and never works on after freeing the source.",
 [G+"graphUtils.c",G+"extensionSystem/graphExtensions.c",PR+"graphDrawPlanar_Extensions.c"],
 [("copy",G+"graphUtils.c gp_CopyGraph gp_DupGraph gp_CopyAdjacencyLists"),("extension copy",G+"extensionSystem/graphExtensions.c gp_CopyExtensions")],None,["dumps of both graphs, sanitizer reports"])
p("G05","Features can be attached, combined and detached in any order",
 "Attaching the drawing and search features in any number, order and repetition, before or after the graph is sized, never changes what any algorithm answers. Detaching a feature, in any order, leaves the others and the base algorithms working exactly as if it had never been attached.",
 ["histories","configurations"],"all attach/detach sequences of the four features combined with all algorithms, and of caller-defined features",
 "The suite attaches exactly one feature to a new graph and never detaches any.",
 [G+"extensionSystem/graphExtensions.c",HS+"graphK23Search_Extensions.c",HS+"graphK33Search_Extensions.c",HS+"graphK4Search_Extensions.c",PR+"graphDrawPlanar_Extensions.c"],
 [("overload chain",G+"extensionSystem/graphExtensions.c gp_AddExtension gp_RemoveExtension")],[("function table chain","which overload each feature calls next")],["results per algorithm, sanitizer reports"])
p("G06","Invalid requests are refused and change nothing",
 "A request to change, process, read into or write a graph returns a failure when the graph is missing or (for processing) not yet sized, when a named vertex lies outside the graph, when the edge store is full, when the graph is initialised a second time, or when the output mode is unknown. The refused request leaves the graph and an existing output file exactly as they were, and the graph fully usable.",
 ["inputs","histories"],"all public operations with each kind of invalid argument, at any point of a history",
 "The suite never passes an invalid argument to the library.",
 [G+"graphUtils.c",G+"graphDFSUtils.c",PR+"graphEmbed.c",G+"io/graphIO.c"],
 [("argument checks",G+"graphUtils.c gp_AddEdge gp_InsertEdge gp_InitGraph")],None,["return values and dump before/after"])
p("G07","Random graph generators keep their promises",
 "The random generator yields a connected simple graph within the documented edge limit. The sized generator yields a connected simple graph with exactly the requested number of edges (at least a spanning tree, at most what the edge store and the complete graph hold), planar up to the maximum for planar graphs and a triangulation plus extra edges beyond it, for every graph size.",
 ["inputs","configurations"],"all vertex counts from 1 up, all feasible edge counts, all random seeds",
 "Random generation is not part of the suite at all.",
 [G+"graphUtils.c","c/planarityApp/planarityRandomGraphs.c"],[("generators",G+"graphUtils.c gp_CreateRandomGraph gp_CreateRandomGraphEx")],None,["generated edges"])
p("I01","Text formats round-trip exactly, through files and strings alike",
 "A graph written as adjacency list or adjacency matrix and read back has the same vertices and edges (and, for adjacency lists, the same neighbour order for embeddings), whether it goes through a file or a string, with zero- or one-based numbering kept. Edge-list input in LEDA format is read as the graph it describes.",
 ["inputs"],"all graphs, neighbour orders, embeddings, directions and numbering bases, and all textual layouts the formats allow",
 "The suite compares a handful of exemplar files in one direction and never reads back what was written.",
 [G+"io/graphIO.c",G+"io/strbuf.c"],[("readers",G+"io/graphIO.c gp_Read gp_ReadFromString"),("writers",G+"io/graphIO.c gp_Write gp_WriteToString")],None,["graph after read, text after write"])
p("I02","Graph6 encoding and decoding agree with the format definition",
 "Any simple graph with 1 to 100000 vertices written as graph6 gives precisely the bytes the public format definition prescribes (after the optional header), and any valid graph6 text of such a graph, with or without header, decodes to precisely the graph it denotes. This holds for one graph and for streams of many graphs of the same order, through files and strings.",
 ["inputs"],"all simple graphs with 1 up to the supported number of vertices (including both sides of the short/long order boundary), all stream lengths",
 "The suite reads graphs of 5 to 10 vertices and writes two samples; longer orders, padding edges, N=1 and multi-graph writing are untested.",
 [G+"io/g6-read-iterator.c",G+"io/g6-write-iterator.c",G+"io/g6-api-utilities.c"],[("decode",G+"io/g6-read-iterator.c readGraphUsingG6ReadIterator"),("encode",G+"io/g6-write-iterator.c writeGraphUsingG6WriteIterator")],None,["graph after read, text after write"])
p("I03","No input text can corrupt memory, hang or yield a broken graph",
 "Whatever bytes are given to the readers (any format, file or string), they return, without invalid memory access, undefined behaviour or leaked memory. If they report success, the graph is well-formed and every algorithm can be run on it safely.",
 ["inputs"],"all byte strings: random, structured-then-mutated, truncated, oversized numbers, mixed formats",
 "The suite only reads well-formed files.",
 [G+"io/graphIO.c",G+"io/strbuf.c",G+"io/strOrFile.c",G+"io/g6-read-iterator.c",PR+"graphDrawPlanar_Extensions.c"],
 [("readers",G+"io/graphIO.c _ReadAdjList _ReadAdjMatrix _ReadLEDAGraph"),("graph6 reader",G+"io/g6-read-iterator.c")],None,["sanitizer reports, return values, adjacency invariants"])
p("I04","Malformed graph files are refused, not silently misread",
 "A text that violates its format (truncated, missing list terminator, neighbour or edge endpoint out of range or repeated, self-loop, missing or invalid matrix entries, a number too large for the program, bad graph6 character, length, order or padding, or a stream with mixed orders) makes reading fail with an error result. It is never reported as a successful read of some other graph.",
 ["inputs"],"all single and multiple corruptions of valid texts that leave the language of the format, via file and string",
 "The suite contains no malformed input.",
 [G+"io/graphIO.c",G+"io/g6-read-iterator.c"],[("validation",G+"io/g6-read-iterator.c _validateGraphEncoding _checkGraphOrder"),("validation",G+"io/graphIO.c _ReadAdjList")],None,["return values of readers"])
p("I05","A saved drawing comes back as the same drawing",
 "Writing a drawn graph (or any graph with attached feature data) in any output mode succeeds, to files and to strings alike. Reading an adjacency-list or matrix text with its drawing section into a graph with the drawing feature restores the same positions for the same vertices and edges. A section that is cut short or whose numbers do not fit the graph is refused.",
 ["inputs"],"all planar graphs, numbering bases, output modes and file/string paths",
 "The suite compares two written drawings with exemplars and never reads one back or writes one in another mode.",
 [PR+"graphDrawPlanar_Extensions.c",G+"io/graphIO.c"],[("extra data write/read",PR+"graphDrawPlanar_Extensions.c _DrawPlanar_WritePostprocess _DrawPlanar_ReadPostprocess")],None,["positions after read, return values"])
p("I06","A transfer that fails is reported",
 "When a graph, a picture or a stream of graphs cannot be written completely, whichever byte the device refuses (once or for good) and also if only closing fails, the write returns an error instead of OK. When a file cannot be read completely, reading returns an error: a partial text is never delivered as the graph and a stream never seems to end early. The graph written stays unchanged, and no memory or open file remains.",
 ["inputs","fault_sequences","crash_points"],"all graphs, formats and ways of writing and reading files, and every offset at which a transfer can fail",
 "No test makes a device refuse data.",
 [G+"io/graphIO.c",G+"io/strOrFile.c",G+"io/g6-read-iterator.c",G+"io/g6-write-iterator.c",PR+"graphDrawPlanar.c"],
 [("writers",G+"io/graphIO.c gp_Write"),("picture",PR+"graphDrawPlanar.c gp_DrawPlanar_RenderToFile"),("readers",G+"io/graphIO.c gp_Read")],None,["return values, file contents, graphs delivered, open files"])
p("M01","Running out of memory is reported, never crashes or corrupts",
 "If any single memory request, or every request from some point on, is refused during any library operation, the operation reports failure. Afterwards every object can still be freed normally, without crash, double release, invalid access or leak.",
 ["fault_sequences","crash_points"],"every allocation site reached by create, size, copy, attach, embed, read, write and render operations, failing once or for ever",
 "No test injects an allocation failure.",
 [G+"graphUtils.c",G+"io/graphIO.c",G+"io/strbuf.c",G+"extensionSystem/graphExtensions.c",PR+"graphDrawPlanar_Extensions.c",HS+"graphK33Search_Extensions.c"],
 [("allocation and cleanup",G+"graphUtils.c _InitGraph _ClearGraph")],None,["sanitizer reports and return values under injected failures"])
p("M02","Correct use never touches memory wrongly, leaks or reads garbage",
 "Any sequence of valid public operations over a graph's whole life runs without out-of-bounds or stale access, use of uninitialised values, undefined arithmetic or double release. When the caller has freed what it owns, no memory and no file remains held.",
 ["histories"],"all valid call histories over all modules, graph sizes and output targets",
 "The suite runs without any sanitizer, so silent memory errors and leaks pass.",
 [G+"graphUtils.c",PR+"graphEmbed.c",G+"io/graphIO.c",G+"io/g6-write-iterator.c",G+"extensionSystem/graphExtensions.c"],
 [("whole library",G+"graphUtils.c gp_New gp_Free")],None,["AddressSanitizer, UBSan, LeakSanitizer and MemorySanitizer reports, open file descriptors"])
p("L01","Stack, list and string-buffer containers follow their models",
 "The integer stack, the circular list collection and the growing string buffer behave like an ordinary stack, set of ordered cyclic lists and string under every sequence of their operations, including copies, duplicates, emptying and growth. String/file streams give back the same characters from a file and from a string with the same content.",
 ["histories"],"all operation sequences and contents",
 "There are no tests for these containers; the algorithms use a fragment of them.",
 [G+"lowLevelUtils/stack.c",G+"lowLevelUtils/listcoll.c",G+"io/strbuf.c",G+"io/strOrFile.c"],
 [("stack",G+"lowLevelUtils/stack.c"),("list collection",G+"lowLevelUtils/listcoll.c"),("string buffer",G+"io/strbuf.c"),("stream",G+"io/strOrFile.c")],None,["container content after each operation"])
p("U01","The specific-graph command gives the right exit status and files",
 "Running the program on one graph exits with 0 for embeddable / nothing found, 1 for not embeddable / found, and an error status otherwise, for each algorithm option. The output files it promises hold a correct embedding, drawing or obstruction of the input under the input's own vertex numbers, and files it does not promise are not written. The old form of the command (input name, output name, -n and obstruction name) writes such files for planarity, with status 0 for either verdict.",
 ["inputs","configurations"],"all graphs, input formats, algorithm options and output-file combinations, including unreadable inputs",
 "The suite calls the inner routine for two graphs; the command line, exit status and output files of the program are untested.",
 ["c/planarityApp/planaritySpecificGraph.c","c/planarityApp/planarityCommandLine.c","c/planarityApp/planarityUtils.c"],
 [("command dispatch","c/planarityApp/planarityCommandLine.c commandLine"),("one graph","c/planarityApp/planaritySpecificGraph.c SpecificGraph")],None,["process exit status and files"])
p("U02","The test-all command counts every graph of a stream correctly",
 "Running an algorithm over a graph6 stream reports exactly the number of graphs in it and exactly how many are embeddable (or free of the pattern) and how many are not. A stream with a bad line is reported as an error, with the counts of the graphs processed before it.",
 ["inputs"],"all streams of same-order graphs, any length, order and mixture, for each algorithm option, valid or corrupted",
 "The suite runs complete enumerations up to 10 vertices only; larger orders, corrupted streams and the error report are untested.",
 ["c/planarityApp/planarityTestAllGraphs.c",G+"io/g6-read-iterator.c"],[("stream loop","c/planarityApp/planarityTestAllGraphs.c testAllGraphs")],None,["output file, exit status"])
p("U03","The transform command preserves the graph between formats",
 "Transforming any readable graph to graph6, adjacency list or adjacency matrix writes a text that denotes the same labelled graph, for every pair of input and output formats. Unreadable input or an unknown target gives an error status.",
 ["inputs"],"all graphs and all format pairs",
 "The suite transforms three sample files.",
 ["c/planarityApp/planarityTransformGraph.c",G+"io/graphIO.c"],[("transform","c/planarityApp/planarityTransformGraph.c TransformGraph")],None,["output file, exit status"])
p("U04","The random-graph commands deliver what they announce",
 "The random modes process exactly the requested number of graphs of the requested size and report statistics that add up. The maximal-planar and nonplanar modes write a correct result for a graph with exactly the announced number of edges, and the exit status tells success from failure.",
 ["inputs","configurations"],"all sizes, counts and algorithm options",
 "The random modes are not part of the suite.",
 ["c/planarityApp/planarityRandomGraphs.c",G+"graphUtils.c"],[("random modes","c/planarityApp/planarityRandomGraphs.c RandomGraphs RandomGraph")],None,["console output, files, exit status"])
p("U05","Menu sessions do what the same command lines do and end with their input",
 "Each choice of the interactive menu leaves the same graph files and the same verdict as the corresponding command line with the same inputs, whatever was chosen before. Wrong answers are refused without harm, and a session whose input ends, ends.",
 ["inputs","histories"],"all sequences of menu choices and answers",
 "The menu is never run by the suite.",
 ["c/planarityApp/planarityMenu.c","c/planarityApp/planarityUtils.c"],[("menu","c/planarityApp/planarityMenu.c menu TransformGraphMenu TestAllGraphsMenu")],None,["console output, files, exit status of a session"])
p("U06","The program reports every failure and releases everything",
 "Whatever the file names, the contents of the files, the console input and the memory available, a run of the program ends by itself without touching memory wrongly, with every allocation released and every file closed. When what was asked could not be done, it says so and exits with the error status instead of printing a verdict or leaving a result that is wrong.",
 ["inputs","faults"],"all command lines, menu sessions, unreadable or unwritable files and refused allocations",
 "No test of the suite makes the program fail.",
 ["c/planarityApp/planarityCommandLine.c","c/planarityApp/planarityUtils.c"],[("commands","c/planarityApp/planarityCommandLine.c commandLine legacyCommandLine"),("attach","c/planarityApp/planarityUtils.c AttachAlgorithm")],None,["console output, files, exit status, allocation and file ledger at exit"])
p("U07","The self test fails exactly when a result differs from its exemplar",
 "Run over a samples directory whose exemplars are the results of its graphs, the -test command succeeds. If any one of its results or exemplars is altered, missing, truncated or extended, it fails and says so, whatever the line ends and length of the files.",
 ["inputs"],"all sample directories and single differences",
 "The suite runs the self test on the intact samples only, which cannot show that a difference would be noticed.",
 ["c/planarityApp/planarityCommandLine.c","c/planarityApp/planarityUtils.c"],[("self test","c/planarityApp/planarityCommandLine.c runQuickRegressionTests runSpecificGraphTests"),("comparison","c/planarityApp/planarityUtils.c TextFileMatchesString")],None,["exit status and console output"])
p("U08","Quiet mode prints nothing and changes nothing else",
 "With -q a command writes nothing to its standard output and error, while its exit status and every file it writes are the same as without -q.",
 ["inputs","configurations"],"all commands, algorithms and graphs",
 "The suite does not compare quiet with ordinary runs.",
 ["c/planarityApp/planarityUtils.c","c/planarityApp/planarityCommandLine.c"],[("quiet mode","c/planarityApp/planarityUtils.c Message ErrorMessage"),("-q option","c/planarityApp/planarityCommandLine.c callRandomGraphs callSpecificGraph callTestAllGraphs callTransformGraph")],None,["console output, files, exit status"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
