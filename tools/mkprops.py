#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="c/graphLib/"
EMB=L+"planarityRelated/graphEmbed.c"; ISO=L+"planarityRelated/graphIsolator.c"; NP=L+"planarityRelated/graphNonplanar.c"
TST=L+"planarityRelated/graphTests.c"; OPO=L+"planarityRelated/graphOuterplanarObstruction.c"
UT=L+"graphUtils.c"; DFS=L+"graphDFSUtils.c"; IO=L+"io/graphIO.c"; DP=L+"planarityRelated/graphDrawPlanar.c"; DPE=L+"planarityRelated/graphDrawPlanar_Extensions.c"
K23=L+"homeomorphSearch/graphK23Search.c";K33=L+"homeomorphSearch/graphK33Search.c";K4=L+"homeomorphSearch/graphK4Search.c"
K33E=L+"homeomorphSearch/graphK33Search_Extensions.c";K4E=L+"homeomorphSearch/graphK4Search_Extensions.c"
EXT=L+"extensionSystem/graphExtensions.c"
APP="c/planarityApp/"
T10="The tests run one labelling of each graph on at most 10 vertices and compare only counts of OK/NONEMBEDDABLE, plus six small sample files. "
p("C01","Planar embedding result is a planar rotation system of the input graph",
 "Planar embedding succeeds for every planar graph, and whenever it succeeds, every vertex's adjacency list holds exactly the neighbours it had in the input graph, and the circular orders of those lists form a planar embedding (Euler's formula holds for the traced faces of every connected component). This holds for connected and disconnected graphs, whatever the vertex labels and the order in which edges were inserted.",
 ["inputs"],"all simple undirected graphs, all vertex labellings and all edge insertion orders",
 T10+"Larger graphs, other labellings and other insertion orders drive the walkdown, merge and inversion paths differently and are never run.",
 [EMB,TST,UT],[("gp_Embed",EMB),("_WalkDown / _MergeBicomps / _JoinBicomps / _OrientVerticesInBicomp",EMB)],
 ["gp_Embed return value","adjacency lists after gp_SortVertices"],[("adjacency lists","rotation system")])
p("C02","Non-planar answer comes with a Kuratowski subgraph of the input",
 "When planar embedding reports the graph non-embeddable, the graph structure afterwards contains only edges of the input graph and those edges form a subdivision of K5 or K3,3, with every other vertex isolated. The answer (embeddable or not) does not depend on the labelling or the edge insertion order.",
 ["inputs"],"all simple undirected non-planar graphs, labellings and insertion orders",
 T10+"The isolator's minor types E1-E4 and the path marking cases depend on the labelling and adjacency order; no test checks the isolated subgraph beyond the built-in checker on those runs.",
 [NP,ISO,TST],[("_IsolateKuratowskiSubgraph",ISO),("_ChooseTypeOfNonplanarityMinor",NP)],
 ["gp_Embed return value","adjacency lists afterwards"])
p("C03","Outerplanar embedding keeps the graph planar with every vertex on the outer face",
 "Outerplanar embedding succeeds for every outerplanar graph, and whenever it succeeds, the adjacency lists still hold exactly the input graph, their circular orders form a planar embedding, and every connected component has a face on which all of its vertices lie. In particular such a success is never reported for a graph that has no outerplanar embedding.",
 ["inputs"],"all simple undirected graphs, labellings and insertion orders",
 T10+"Outer-face membership across joined bicomps at larger sizes is never observed.",
 [EMB,TST],[("gp_Embed with outerplanar flag",EMB),("_CheckAllVerticesOnExternalFace",TST)],
 ["gp_Embed return value","adjacency lists afterwards"])
p("C04","Non-outerplanar answer comes with a K4 or K2,3 subgraph of the input",
 "When outerplanar embedding reports the graph non-embeddable, what is left in the graph structure is a subgraph of the input that is a subdivision of K4 or K2,3, with every other vertex isolated.",
 ["inputs"],"all simple undirected non-outerplanar graphs, labellings and insertion orders",
 T10,
 [OPO,ISO,TST],[("_IsolateOuterplanarObstruction",OPO)],["gp_Embed return value","adjacency lists afterwards"])
p("C05","K2,3 search finds a K2,3 subdivision exactly when one exists",
 "The K2,3 search reports non-embeddable exactly when the input graph contains a subgraph that is a subdivision of K2,3, and then leaves exactly such a subgraph of the input in the graph structure. When it reports success, the input contains no such subgraph.",
 ["inputs"],"all simple undirected graphs, labellings and insertion orders",
 T10+"The search continues past K4 blocks; sequences of several such blocks in one larger graph are not reached.",
 [K23,L+"homeomorphSearch/graphK23Search_Extensions.c"],[("_SearchForK23InBicomp",K23)],["gp_Embed return value","adjacency lists afterwards"])
p("C06","K3,3 search finds a K3,3 subdivision exactly when one exists",
 "The K3,3 search reports non-embeddable exactly when the input graph contains a subgraph that is a subdivision of K3,3, and then leaves exactly such a subgraph of the input in the graph structure. When it reports success, the graph contains no such subgraph (although it may be non-planar).",
 ["inputs"],"all simple undirected graphs, labellings and insertion orders",
 T10+"Graphs with several K5 blocks, long reduced paths and repeated reduction/restoration need more vertices than 10.",
 [K33,K33E],[("_SearchForK33InBicomp",K33),("_ReduceBicomp / _ReduceExternalFacePathToEdge / _RestoreReducedPath",K33)],["gp_Embed return value","adjacency lists afterwards"])
p("C07","K4 search finds a K4 subdivision exactly when one exists",
 "The K4 search reports non-embeddable exactly when the input graph contains a subgraph that is a subdivision of K4, and then leaves exactly such a subgraph of the input in the graph structure. When it reports success, the graph contains no such subgraph.",
 ["inputs"],"all simple undirected graphs, labellings and insertion orders",
 T10+"Series-parallel graphs with deeply nested reductions need larger sizes and other labellings.",
 [K4,K4E],[("_SearchForK4InBicomp",K4),("_K4_ReduceBicompToEdge / _K4_RestoreAndOrientReducedPaths",K4)],["gp_Embed return value","adjacency lists afterwards"])
p("C08","Planar drawing is a correct visibility representation",
 "When planar drawing succeeds, each vertex is a horizontal segment at its own vertical position and each edge a vertical segment at its own horizontal position; every edge's segment ends exactly on the segments of its two endpoints and touches no other vertex segment. Drawing succeeds exactly for the planar graphs, and its combinatorial embedding is a planar embedding of the input.",
 ["inputs"],"all simple undirected planar graphs including disconnected ones and ones without edges, labellings and insertion orders",
 T10+"The tie-breaking data are collected per merge and depend on labelling and approach direction.",
 [DP,DPE],[("_CollectDrawingData / _BreakTie",DP),("_ComputeVisibilityRepresentation",DP)],["drawing data written after the adjacency list","rendition string"])
p("C09","Rendered and saved drawings carry the same visibility representation",
 "The text rendition of a drawing shows exactly the vertex and edge segments of the visibility representation and is a rectangle of the documented size. Writing a drawn graph and reading the output back into a graph with the drawing feature attached gives the same graph with the same visibility representation, so its rendition is identical.",
 ["inputs","histories"],"all drawn planar graphs with 0-based or 1-based labels, to and from files and strings",
 "Tests compare the output text for two sample graphs and never read a saved drawing back.",
 [DP,DPE,IO],[("_RenderToString",DP),("_DrawPlanar_WritePostprocess / _DrawPlanar_ReadPostprocess",DPE)],["gp_DrawPlanar_RenderToString","gp_WriteToString / gp_ReadFromString"])
p("C10","Embedding leaves a DFS numbering and sorting switches numberings without loss",
 "After embedding, the vertices are numbered by a depth-first search of the input graph and every vertex remembers its original number. Once an embedding has been made or an obstruction isolated, sorting the vertices restores the original numbering with neighbours, directions and circular order intact. Sorting again returns to the depth-first numbering, so that sorting twice changes nothing observable.",
 ["inputs","histories"],"all graphs, results of all embedding modes, and any number of repeated sorts",
 "Tests sort exactly once, on six sample results, and compare text output.",
 [UT,DFS,EMB],[("gp_SortVertices / _SortVertices",DFS),("gp_CreateDFSTree",DFS)],["vertex index values","adjacency lists before and after each sort"])
p("C11","DFS tree, lowpoint and least ancestor values match their definitions",
 "The depth-first numbering utilities produce a depth-first forest: parents form a spanning forest of each component, every non-tree edge joins an ancestor and a descendant, and edges are classified accordingly at both ends. The computed least-ancestor and lowpoint values equal their definitions over that forest, for whichever order the utilities are called in.",
 ["inputs","histories"],"all graphs, labellings and adjacency orders; each permitted sequence of utility calls",
 "No test observes parents, edge classes, least ancestors or lowpoints.",
 [DFS],[("gp_CreateDFSTree / gp_LowpointAndLeastAncestor / gp_LeastAncestor",DFS)],["vertex parent, lowpoint and least-ancestor accessors","edge type accessors"])
p("C12","Adjacency structure stays consistent under any history of edge operations",
 "After any sequence of edge additions, insertions at a chosen place, deletions and direction changes, each vertex's adjacency list (forwards and backwards) holds exactly the edges the operations imply, in the implied order and with the implied direction. Edge count, neighbour and degree queries agree with those lists, deleted edge storage is reused without disturbing other edges, and failing operations change nothing.",
 ["histories"],"all sequences of edge operations over any graph",
 "Tests only add edges while reading files; deletion and insertion happen inside algorithms and are never observed.",
 [UT],[("gp_AddEdge / gp_InsertEdge / gp_DeleteEdge / gp_SetDirection",UT),("gp_IsNeighbor / gp_GetVertexDegree / gp_GetVertexInDegree / gp_GetVertexOutDegree",UT)],["adjacency lists through the public accessors","M"])
p("C13","Hidden, contracted and identified parts are restored exactly",
 "Hiding edges or vertices, contracting edges and identifying vertices have their graph-theoretic effect on the visible graph (no self-loops or doubled neighbours appear), and restoring in reverse order returns every adjacency list to exactly its earlier content and order.",
 ["histories"],"all nested sequences of hide, contract, identify and restore operations",
 "No test calls these operations.",
 [UT],[("gp_HideEdge / gp_RestoreEdge / gp_HideVertex",UT),("gp_ContractEdge / gp_IdentifyVertices / gp_RestoreVertices",UT)],["adjacency lists before, between and after the operations"])
p("C14","Growing the edge capacity never changes the graph",
 "Requesting a larger edge capacity, explicitly or by adding an edge that does not fit, leaves all existing edges, orders, directions and hidden or deleted edges as they were and makes room for the requested number of edges. Plain addition beyond the capacity is refused with a distinct result and changes nothing.",
 ["histories","configurations"],"all graphs and capacities, before and after initialisation, with and without deleted edges",
 "No test asks for a capacity explicitly after edges exist, and default capacities hide growth except for two dense samples.",
 [UT],[("gp_EnsureArcCapacity / _EnsureArcCapacity",UT),("gp_DynamicAddEdge / gp_DynamicInsertEdge",UT)],["adjacency lists","gp_GetArcCapacity"])
p("C15","Copies and duplicates are faithful and independent",
 "Copying or duplicating a graph (also with features attached, deleted edges or an embedding present) gives a graph with the same adjacency lists, directions, labels and flags, on which later operations behave as they would on the original. Changing, reinitialising or freeing either graph never affects the other.",
 ["histories","configurations"],"all graphs and all interleavings of later operations on original and copy",
 "Tests copy only to feed the integrity checker and free both at the end.",
 [UT,EXT],[("gp_CopyGraph / gp_DupGraph / gp_CopyAdjacencyLists",UT),("gp_CopyExtensions",EXT)],["adjacency lists of both graphs","results of embedding the copy"])
p("C16","Adjacency-list output reads back as the same graph",
 "Writing any graph, directed or not, in adjacency-list format to a file or string and reading it back gives a graph with the same vertices, edges, directions and neighbour order, and writing that again gives identical text. Zero-based input stays zero-based.",
 ["inputs"],"all undirected graphs and graphs with directed edges; both index bases; files and strings",
 "Tests read three sample files and compare one written result each; directed graphs are never read or written.",
 [IO],[("_ReadAdjList / _WriteAdjList",IO)],["gp_Write / gp_WriteToString","gp_Read / gp_ReadFromString"])
p("C17","Adjacency-matrix output reads back as the same graph",
 "Writing a graph in adjacency-matrix format to a file or string and reading it back gives the same set of edges on the same number of vertices, and the matrix text lists exactly the upper-triangular adjacencies.",
 ["inputs"],"all simple undirected graphs, files and strings",
 "The matrix format is neither read nor written by the test-suite.",
 [IO],[("_ReadAdjMatrix / _WriteAdjMatrix",IO)],["gp_Write / gp_WriteToString","gp_Read / gp_ReadFromString"])
p("C18","graph6 encoding and decoding are exact",
 "The graph6 text written for a graph is the standard graph6 encoding of its order and adjacency, for every order the format allows including the one-byte and multi-byte order forms, and reading graph6 text yields exactly the encoded graph whether or not the header is present.",
 ["inputs"],"all simple undirected graphs and graph orders",
 "Only graphs up to 10 vertices are decoded and three sample graphs encoded; orders of 1, 62, 63 and more are never used.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c",L+"io/g6-api-utilities.c"],[("_decodeGraph / _validateGraphEncoding",L+"io/g6-read-iterator.c"),("_encodeAdjMatAsG6",L+"io/g6-write-iterator.c")],["gp_WriteToString with graph6 format","gp_ReadFromString"])
p("C19","graph6 iterators deliver and accept whole sequences of graphs",
 "A graph6 write iterator fed a sequence of graphs produces text from which a graph6 read iterator delivers the same sequence of graphs, with matching counts, end of input reported once all are delivered, and independence from what the reused graph held before. Calls out of protocol order are refused without harm.",
 ["histories","inputs"],"all sequences of graphs of one order and all call orders on the iterators, over files and strings",
 "The read iterator is only run on well-formed generated files; the write iterator is never used for more than one graph.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c"],[("begin/read/end of G6ReadIterator",L+"io/g6-read-iterator.c"),("begin/write/end of G6WriteIterator",L+"io/g6-write-iterator.c")],["iterator API results and output text"])
p("C20","Malformed graph input is rejected cleanly",
 "Reading text that is not a well-formed graph in any supported format (bad header or order, characters outside the format, wrong lengths, vertex numbers out of range, truncated content, missing file) reports failure, never reports success for a different graph, and never accesses memory out of bounds. The graph object can still be freed afterwards.",
 ["inputs","fault_sequences"],"all byte sequences derived from valid files by truncation, replacement, insertion and duplication",
 "No test feeds malformed input.",
 [IO,L+"io/g6-read-iterator.c",L+"io/strOrFile.c"],[("_ReadGraph and format readers",IO),("_validateGraphEncoding",L+"io/g6-read-iterator.c")],["gp_Read / gp_ReadFromString result"])
p("C21","LEDA input is read as the graph it describes",
 "A LEDA graph file is read as the undirected graph with one edge per listed pair of distinct endpoints, ignoring repeated edges and self-loops, independent of the presence of node and edge type information.",
 ["inputs"],"all LEDA graph files of the supported form",
 "No test or sample uses the LEDA format.",
 [IO],[("_ReadLEDAGraph",IO)],["gp_Read / gp_ReadFromString"])
p("C22","Attached features do not interfere with each other or with the core",
 "Features can be attached and detached in any order and number without affecting the results of other attached features or of the core embedder: every algorithm gives the same kind of correct result with or without other features attached, before or after initialisation. After a feature is detached the graph behaves as if it had never been attached.",
 ["histories","configurations"],"all sequences of attach, detach, embed and reinitialise operations with all feature combinations",
 "Tests attach one feature to a fresh graph and never detach.",
 [EXT,DPE,K33E,K4E],[("gp_AddExtension / gp_RemoveExtension / _OverloadFunctions / _RemoveExtension",EXT)],["gp_Embed results under each configuration","gp_FindExtension"])
p("C23","List collection and integer stack behave as their abstract types",
 "Any sequence of list-collection operations (append, prepend, insert before/after, delete, traversal, copy) over disjoint circular lists, and any sequence of stack operations (push, pop, positional get/set, copy, concatenation, capacity growth), yields the contents that ordinary sequences would have.",
 ["histories"],"all operation sequences and capacities",
 "These types are only exercised indirectly.",
 [L+"lowLevelUtils/listcoll.c",L+"lowLevelUtils/stack.c"],[("LCAppend / LCDelete / LCInsertAfter ...",L+"lowLevelUtils/listcoll.c"),("sp_Push / sp_CopyContent / sp_ConcatContent ...",L+"lowLevelUtils/stack.c")],["public operations and macros"])
p("C24","String streams behave like file streams",
 "The string-or-file container gives the same observable results for a string as for a file with the same content: characters read, characters put back, lines, end of input, and identical accumulated text on writing; and the string buffer's reading, skipping, integer and concatenation operations act on exactly the text put in, never moving outside it.",
 ["histories","inputs"],"all contents and all sequences of stream and string buffer operations",
 "Tests only compare end results of a few whole-graph reads.",
 [L+"io/strOrFile.c",L+"io/strbuf.c"],[("sf_getc / sf_ungetc / sf_fgets / sf_fputs / sf_takeTheStr",L+"io/strOrFile.c"),("sb_* operations",L+"io/strbuf.c")],["public stream operations"])
p("C25","A reinitialised graph object behaves like a new one",
 "After reinitialising a graph object, whatever was done with it before (embedding, obstruction isolation, deletion, hiding, drawing, sorting), it is an empty graph of the same order and the same edge insertions and embedding give exactly the same result as on a freshly created object.",
 ["histories"],"all histories of operations before reinitialisation, for all attached features",
 "Only embed-reinitialise cycles of one algorithm on graphs of one order are run, and only counts are compared.",
 [UT,K33E,K4E,DPE],[("gp_ReinitializeGraph / _ReinitializeGraph",UT)],["results on reused against fresh objects"])
p("C26","Random graph generators keep their promises",
 "The random graph generator returns a simple connected graph of the requested order; the maximal planar generator with a requested number of edges returns a simple graph with exactly that many edges that is planar and maximal planar at the limit, and becomes non-planar when more edges are requested. Requests that no simple graph can satisfy do not hang or corrupt the graph.",
 ["inputs","schedules"],"all orders, edge counts and random number sequences",
 "No test runs the generators.",
 [UT],[("gp_CreateRandomGraph / gp_CreateRandomGraphEx",UT)],["generated adjacency lists"])
p("C27","The result integrity check accepts correct results and rejects corrupted ones",
 "The integrity check returns the given result for every correct embedding or obstruction and reports an error when the graph it is given is not the original plus a valid embedding, or not a valid obstruction subgraph of the original, for each algorithm. It leaves the embedding unchanged.",
 ["inputs","fault_sequences"],"all results and all single corruptions of them (swapped neighbours, missing or extra edges, wrong claim)",
 "The tests rely on this check but never show it a wrong result.",
 [TST],[("gp_TestEmbedResultIntegrity",TST),("_CheckEmbeddingIntegrity / _CheckObstructionIntegrity",TST)],["gp_TestEmbedResultIntegrity"])
p("C28","Test-all-graphs mode reports exact totals",
 "Running an algorithm over a graph6 file reports the number of graphs in the file, of which the embeddable and non-embeddable counts are each exact for that algorithm, and flags an error exactly when a line cannot be processed. The totals do not depend on the order of the graphs in the file.",
 ["inputs","histories"],"all graph6 files with graphs of one order, and all algorithms",
 "Only the complete generated files for 5 to 10 vertices are run; small orders, other orders of graphs in the file and broken files are not.",
 [APP+"planarityTestAllGraphs.c"],[("testAllGraphs / outputTestAllGraphsResults",APP+"planarityTestAllGraphs.c")],["output file of planarity -t"])
p("C29","Command-line specific-graph and transform modes give the library's answer",
 "The specific-graph mode exits with 0 for embeddable, 1 for non-embeddable and an error code otherwise, and writes the embedding, obstruction or drawing of the input graph in the input's own numbering to the documented output file. The transform mode writes the same graph in the requested format.",
 ["inputs","configurations"],"all graphs, input formats, algorithms and output options",
 "Tests call the internals on six samples and never look at exit codes or files.",
 [APP+"planarityCommandLine.c",APP+"planaritySpecificGraph.c",APP+"planarityTransformGraph.c"],[("callSpecificGraph / SpecificGraph",APP+"planaritySpecificGraph.c"),("TransformGraph",APP+"planarityTransformGraph.c")],["process exit status and output files"])
p("C30","Every step of the embedder keeps a planar partial embedding",
 "While embedding, after each processed vertex the edges embedded so far form bicomps that are each planar, contain exactly the tree edges and back edges processed so far, and meet only at cut vertices; the root of every bicomp lies on its external face, as does every vertex that still has unembedded back edges or child bicomps needing them. Back edges are only ever embedded between the current vertex and its descendants.",
 ["inputs","histories"],"all graphs, labellings and insertion orders; every intermediate step",
 "Tests only look at final answers.",
 [EMB],[("_WalkUp / _WalkDown / _MergeBicomps / _EmbedBackEdgeToDescendant",EMB)],["extension function-table call sequence and adjacency lists at each step"])
p("C31","Memory exhaustion is reported, never a crash or a leak",
 "When any single memory allocation fails during creation, initialisation, reading, writing, copying, feature attachment, capacity growth or embedding, the operation reports failure and every object involved can still be freed, without invalid memory access or double release.",
 ["fault_sequences"],"every single allocation failure point in a set of scenarios covering each allocating operation",
 "No test injects allocation failures.",
 [UT,EXT,IO,L+"lowLevelUtils/listcoll.c",L+"lowLevelUtils/stack.c"],[("_InitGraph / _ClearGraph / gp_Free",UT),("allocation error paths",EXT)],["return values under injected allocation failure"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
