#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("C01", "Migration moves every vertex exactly once, with its data",
    "After the graph is migrated or repartitioned, every vertex of the graph is owned by exactly one process: the process its owner's plan named, or its previous owner if the plan did not name it. Its weight, its coordinates (when the graph has coordinates) and the process that originally owned it are unchanged, and no vertex appears, disappears or changes otherwise.",
    ["inputs", "histories", "configurations"],
    "every graph (hypergraph or directed graph, any number of edge types, empty parts included), every plan (including no-op, overwritten and self-directed entries), every sequence of such migrations, every number of processes",
    "The tests migrate a handful of ring, tree and cube graphs by fixed plans and check local properties on a rank; they never compare the whole distributed graph before and after, and do not sample multi-type or directed graphs with general plans.",
    ["agi/agiMigrate.cpp", "agi/agiMigration.cpp", "agi/agiConstruct.cpp", "agi/agiVertex.cpp"],
    [("migrate", "Ngraph::migrate, addVertices/sendVertex/recvVertex/sendCoord/recvCoord in agi/agiMigrate.cpp"),
     ("plan", "Migration::insert/has/get in agi/agiMigration.cpp"), ("repartition", "Ngraph::repartition in agi/agiMigrate.cpp")])
add("C02", "Migration preserves every edge and puts it on the right processes",
    "After a migration, a process holds a hyperedge of a type exactly when it owns at least one of the vertices the edge connects, and holds a directed edge exactly when it owns its source; each such edge is held once with the same type, the same connected vertices in the same order and the same weight as before. No edge of any type is lost, duplicated, rewired or invented.",
    ["inputs", "histories", "configurations"],
    "every graph with any number of edge types, every plan, every sequence of migrations, every number of processes",
    "Existing tests check counts and validity on single-type graphs after fixed plans; an edge lost on one of several types, or a wrong weight on one edge, leaves every asserted count intact.",
    ["agi/agiMigrate.cpp", "agi/agiConstruct.cpp", "agi/agiEdge.cpp"],
    [("affected edges", "getAffected/addEdges/sendEdges/recvEdges in agi/agiMigrate.cpp"),
     ("rebuild", "Ngraph::constructEdges in agi/agiConstruct.cpp")])
add("C03", "Ghost vertices, their owners and weights, and global counts are exact",
    "Whenever a graph has been constructed or migrated, each process's ghost vertices are exactly the vertices it does not own that are connected to an edge it holds, each known once with the process that really owns it and with that vertex's weight. The global numbers of vertices, and per type of edges and pins, equal the numbers in the whole distributed graph and agree on every process.",
    ["inputs", "histories", "configurations"],
    "every distributed graph, every construction order, every migration sequence, every number of processes",
    "Tests check only that ghost owners are in range and that sums match on fixed symmetric examples; a stale ghost owner on one process after a particular sequence passes them.",
    ["agi/agiConstruct.cpp", "agi/agiMigrate.cpp", "agi/agiVertex.cpp", "agi/agiTag.cpp"],
    [("ghosts", "Ngraph::constructGhosts in agi/agiConstruct.cpp"), ("ghost owner update", "Ngraph::updateGhostOwners in agi/agiMigrate.cpp"),
     ("ghost weights", "createDoubleGhostTag/shareTag in agi/agiTag.cpp")])
add("C04", "The partition map returned to the original owners is exact",
    "After any sequence of migrations, requesting the partition gives each process a map whose keys are exactly the vertices that process originally owned, each mapped to the process that owns it now. Applying that map to the original distribution reproduces the current distribution.",
    ["histories", "inputs", "configurations"],
    "every sequence of migrate, repartition, balance and split steps from any distribution, with ownership resets in between",
    "Tests request the partition after one fixed operation and check that its size or a repeated migration works; they do not compare the map with the real distribution over histories.",
    ["agi/agiMigrate.cpp", "agi/agiVertex.cpp"],
    [("getPartition", "Ngraph::getPartition in agi/agiMigrate.cpp"), ("original owners", "setOriginalOwners/resetOwnership in agi/agiVertex.cpp")])
add("C05", "Traversal of a process's graph shows exactly the graph that was built",
    "Iterating vertices, ghosts, edges, a vertex's edges and neighbours, and an edge's pins or end points on a process visits exactly the entities of that process's share of the graph, each the right number of times, with matching degrees, local and global identifiers, weights and coordinates. The vector and array forms of construction give the same graph, default weights are one, and a valid graph is reported valid.",
    ["inputs", "programs", "configurations"],
    "every local graph given to construction (any order of edges, isolated vertices, repeated degrees, several types, empty parts), both construction forms, both graph kinds",
    "The unit tests build a few regular graphs whose edges are grouped by source and have one type, and count entities; they cannot settle the mapping for arbitrary orders and type counts.",
    ["agi/agiConstruct.cpp", "agi/agiIterate.cpp", "agi/agiVertex.cpp", "agi/agiEdge.cpp", "agi/agiValid.cpp", "agi/Iterators"],
    [("construction", "constructVerts/constructEdges in agi/agiConstruct.cpp"), ("iteration", "Ngraph::iterate overloads in agi/agiIterate.cpp")])
add("C06", "Residence and cut of an edge follow the ownership of its vertices",
    "The processes an edge is reported to reside on are exactly the owners of the vertices it connects; it is reported resident on a process exactly when that process is among them, and cut exactly when there is more than one. All processes that hold an edge agree on these answers.",
    ["inputs", "histories", "configurations"],
    "every edge of every distributed graph, before and after any sequence of migrations and renumberings of owners",
    "Tests check residence on two fixed patterns only.",
    ["agi/agiEdge.cpp", "agi/agiVertex.cpp"],
    [("residence", "getResidence/isResidentOn/isCut in agi/agiEdge.cpp"), ("owner", "Ngraph::owner in agi/agiVertex.cpp")])
add("C07", "Saving a graph and loading it gives the same distributed graph",
    "Loading what was saved, with the same number of processes, gives every process the same vertices, weights and coordinates, the same edges of every type with the same pins, order and weights, and the same ghosts and owners it had when saved. Saving again writes the same files.",
    ["inputs", "histories", "configurations"],
    "every graph (both kinds, any number of types, with and without coordinates, empty parts) with identifiers the documented 32-bit file format can hold, saved after any history of construction and migration",
    "The tests save and load a few built-in graphs and compare aggregate counts and neighbourhood sizes.",
    ["agi/agiIO.cpp", "pcu/pcu_io.c"],
    [("file format", "saveToFile/loadFromFile, writeHeader..readEdges in agi/agiIO.cpp"), ("integers and doubles", "pcu_read/write_unsigneds/doubles in pcu/pcu_io.c")])
add("C08", "Tags hold the value last stored for each entity, on every copy once shared",
    "A tag created on vertices or on an edge type returns for each entity the value last stored for that entity and tag, independently of every other entity, tag and type. A shared (ghost) tag shows on every process, for every ghost, the value its owner computed or held when the tag was created or last shared.",
    ["programs", "inputs", "configurations"],
    "every sequence of tag creations, stores, shares and destructions over every value kind and graph",
    "Tests store a constant per tag, on graphs with one edge type.",
    ["agi/agiTag.cpp", "agi/agiConstruct.cpp"],
    [("tags", "create*Tag/get*Tag/set*Tag in agi/agiTag.cpp"), ("ghost tags", "create*GhostTag/shareTag in agi/agiTag.cpp")])
add("C09", "A message phase delivers each message exactly once, in order, and ends",
    "In every phase of packing, sending and receiving, each process receives from every process exactly the bytes packed for it in that phase, once and in the order they were packed, and nothing of any other phase; with ordering on, senders are seen in increasing rank. The receive loop of every process ends exactly when everything addressed to it in that phase has been delivered, whatever the timing of messages and processes.",
    ["schedules", "programs", "configurations"],
    "every interleaving of processes and every message delay the transport permits, every pattern and size of messages (including to oneself and none), every sequence of phases, every number of processes",
    "The tests run one schedule the local machine happens to give, where shared-memory messages arrive at once; a missing barrier or early termination shows only under unlucky delays.",
    ["pcu/pcu.c", "pcu/pcu_msg.c", "pcu/pcu_coll.c", "pcu/pcu_order.c", "pcu/pcu_pmpi.c", "pcu/pcu_aa.c", "pcu/pcu_buffer.c"],
    [("phase protocol", "pcu_msg_start/pack/send/receive in pcu/pcu_msg.c"), ("termination", "pcu_begin_barrier/pcu_barrier_done in pcu/pcu_coll.c"),
     ("ordering", "pcu_order_receive in pcu/pcu_order.c"), ("transport", "pcu_pmpi_send2/receive2/done in pcu/pcu_pmpi.c")])
add("C10", "Collective operations return the exact reduction or prefix on every process",
    "Every reduction (sum, minimum, maximum, and, or) over all processes gives every process the reduction of all contributions of that call, and an exclusive prefix sum gives each process the sum over the lower ranks, element by element. This holds for every number of processes and timing, and a barrier is left by no process before all have entered.",
    ["schedules", "inputs", "configurations"],
    "every value vector and length, every process count (powers of two or not), every interleaving and message delay, repeated and mixed collectives",
    "The suite uses four processes or fewer for most collectives, where the odd tree shapes do not occur, and one schedule.",
    ["pcu/pcu_coll.c", "pcu/pcu.c"],
    [("patterns", "reduce/bcast/scan patterns and pcu_coll_* in pcu/pcu_coll.c"), ("entry points", "PCU_Add_*/Min/Max/Exscan/Or/And in pcu/pcu.c")])
add("C11", "Balancing only redistributes the graph, and stops",
    "Diffusive load balancing ends within its configured iteration limits and changes nothing but which process owns each vertex: every vertex keeps its weight and coordinates and every edge of every type is intact. The owner map it leaves is consistent on all processes, and when the partition already meets every requested tolerance no vertex moves. No step is made for a target once its tolerance is met or once its imbalance is the worst of the last three steps.",
    ["inputs", "configurations", "histories"],
    "every distributed graph, every list of priorities and tolerances, step factor, edge types, selection options and iteration limits, repeated balancing",
    "Tests balance a few graphs and check validity or print the imbalance; an edge or vertex lost in some configuration is not looked for.",
    ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/engpar_diffusive_input.cpp", "agi/agiMigrate.cpp"],
    [("driver", "balance/Balancer::balance/runStep in partition/Diffusive/src/engpar_balancer.cpp"), ("stopping", "tolerance test and iteration limits in runStep")])
add("C12", "Balancing a later target never unbalances an earlier one beyond its limit",
    "While a later priority is being balanced, no step makes any process's load in an already treated priority exceed both the load it had before that step and the limit recorded for that priority (the larger of the tolerance times the average and the maximum reached when it was finished). This covers loads of the vertices a process owns and of every edge type.",
    ["inputs", "configurations", "histories"],
    "every distributed graph, every ordered list of at least two priorities, weights, tolerances and step factors, every step of the run",
    "The multi-criteria tests check only that balancing runs; whether one step overloads an earlier criterion depends on which neighbours plan migrations to the same process simultaneously.",
    ["partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_weights.h"],
    [("trim and cancel", "Selector::trim/cancel in partition/Diffusive/src/engpar_selector.cpp"), ("completed limits", "completed_dimensions/completed_weights in engpar_balancer.cpp")])
add("C13", "Diffusion moves load only to lighter neighbours, by a bounded amount",
    "In a balancing step a process sends vertices only to processes it shares an edge of the chosen boundary type with and whose load in the treated priority is smaller than its own, and none when it is not above them. The load selected for one neighbour stops growing once the amount computed from the difference, the shared boundary share and the step factor is reached. In hypergraphs on more than two processes a neighbour that shares more of the boundary than processes had on average when the target was begun is sent nothing. A run does not end, tolerance unmet and imbalance not stagnant, while a lighter neighbour can be reached over a boundary edge with few vertices.",
    ["inputs", "configurations"],
    "every distributed graph, every step factor, boundary type and treated priority; the extra cavities that an optional minimum connectivity above one or the part weight balancer adds are outside",
    "No test inspects which neighbours receive how much; the balancer's result is only printed or checked for validity.",
    ["partition/Diffusive/src/engpar_targets.h", "partition/Diffusive/src/engpar_sides.h", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_weights.h"],
    [("targets", "Targets in partition/Diffusive/src/engpar_targets.h"), ("boundary", "Sides in engpar_sides.h"), ("selection", "Selector::select/selectDisconnected in engpar_selector.cpp")])
add("C14", "Weight balancing conserves weight and credits the right vertex",
    "Moving weight between vertices removes each planned amount from the sending vertex and adds it to the named receiving vertex, so that the total weight of the graph is unchanged and every process that shows a vertex's weight shows the new one. The weight partition reported afterwards accounts, vertex by vertex, for the whole change of weight; the graph's vertices, owners and edges are untouched. A balancing step moves weight only from heavier to lighter neighbouring processes and no more than the amount computed. Unless the tolerance is met, the imbalance stagnates or the iterations are used up, it goes on while some weight can move.",
    ["inputs", "histories", "configurations"],
    "every graph and weight plan (several amounts to one vertex, chains, self process), every weight balancing run and tolerance",
    "The weight balancing tests use a symmetric graph with one vertex per process, where crediting the wrong local vertex cannot be seen.",
    ["agi/agiWeightMigrate.cpp", "agi/agiWeightMigration.cpp", "partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_weightSelector.cpp"],
    [("weight migration", "Ngraph::migrate(WeightMigration*) in agi/agiWeightMigrate.cpp"), ("driver", "WeightBalancer::runStep in engpar_weightBalancer.cpp")])
add("C15", "Splitting puts each vertex where the partitioner decided, on the larger set",
    "A split gives the external partitioner exactly the graph (each process's vertices, adjacency across processes and weights) it is to divide and the number of parts asked for, and afterwards every vertex is owned by the process its answer designates, with everything else about the graph preserved. A local split keeps every vertex within the group of processes of its original owner, and the original owners of all vertices, the owner numbering and the active communicator are those of the larger set.",
    ["inputs", "configurations"],
    "every graph on a smaller process set (for ParMETIS integer weights, and every directed edge present in both directions), every larger set and rank correspondence, both global and local methods, every answer the partitioner may give",
    "The tests run the one partition the installed library happens to return for a few graphs and check validity only; most of the split tests need graph files that are absent.",
    ["partition/Multilevel/engpar_split.cpp", "partition/Multilevel/engpar_parmetis.cpp", "partition/Multilevel/engpar_zoltan.cpp", "partition/engpar_input.cpp", "agi/agiVertex.cpp"],
    [("driver", "split/expandParts in partition/Multilevel/engpar_split.cpp"), ("partitioner graphs", "EnGPar_ParMETIS and EnGPar_Zoltan"), ("renumbering", "Ngraph::changeOwners in agi/agiVertex.cpp")])
add("C16", "Loading a binary edge list distributes exactly the graph in the file",
    "Loading a binary edge list gives processes a directed graph whose vertices and edges, taken together, are exactly those in the file, each edge on the process that owns its source, with correct ghosts and owners. This holds whatever the number of processes and with or without a supplied vertex partition.",
    ["inputs", "configurations"],
    "every edge list without self loops in which identifiers are dense, with every number of processes",
    "The binary graph tests need data files that are absent and check only counts.",
    ["interfaces/binGraph.cpp", "interfaces/binGraph.h"],
    [("load", "binGraph constructor, load_edges, exchange_edges, create_dist_csr in interfaces/binGraph.cpp")])
add("C17", "Partition metrics describe the real partition",
    "The vertex and edge loads and imbalances computed for a partition, and every number in the printed evaluation (empty parts, disconnected components, neighbours, loads, cut per edge type, their maximum, minimum, average and total) equal the values derived from the whole distributed graph. All processes agree on collective values.",
    ["inputs", "histories", "configurations"],
    "every distributed graph with any number of edge types, weighted or not, any number of processes, after any migrations; components are those joined by edges of the first type",
    "Tests print the evaluation and never compare it; imbalance is checked on a perfectly regular graph.",
    ["partition/Metrics/engpar_metrics.cpp", "partition/engpar.cpp", "partition/Diffusive/src/engpar_sides.h"],
    [("weights", "getWeight/EnGPar_Get_Imbalance in partition/Metrics/engpar_metrics.cpp"), ("report", "evaluatePartition/countDisconnected in partition/engpar.cpp")])
add("C18", "The C and Fortran interface has the effect of the native operations",
    "Every operation of the C interface, which the Fortran interface binds by name, is callable with its documented arguments and has the same effect and results as the native operation it stands for. In particular construction, saving, loading, balancing options, splitting and the returned partition agree with the native ones on every graph.",
    ["programs", "inputs", "configurations"],
    "every sequence of interface calls on every graph",
    "Only two Fortran programs and a C test call it, with one graph each and without comparing to the native operations.",
    ["interfaces/cengpar.cpp", "interfaces/cengpar.h", "ftn/engpar.f90"],
    [("wrappers", "cengpar_* in interfaces/cengpar.cpp")])
add("C19", "Selection visits every boundary edge once, from the outside in",
    "The order in which a balancing step considers edges lists every edge of the boundary type that crosses to another process exactly once and only such edges. Edges are grouped by connected component and ordered by their distance from the component's centre, farthest first, so the outcome does not depend on anything but the graph.",
    ["inputs", "configurations"],
    "every distributed graph (the boundary type is the first edge type), including several components, no boundary, no vertices and very few edges; the order by distance on hypergraphs",
    "No test checks the order for completeness; the queue test only checks that it can be built on regular graphs.",
    ["partition/Diffusive/src/engpar_queue.cpp", "partition/Diffusive/src/engpar_queue.h"],
    [("queues", "createIterationQueue/createDistanceQueue in partition/Diffusive/src/engpar_queue.cpp")])
add("C20", "Communication stays inside the active communicator, and switching is exact",
    "After switching communicators every rank, size, message and collective refers to the new communicator only; concurrent activity in disjoint groups never mixes, and switching back restores the former rank and size. The application's own communicators and messages are neither consumed nor matched by the library.",
    ["schedules", "programs", "configurations"],
    "every division of the processes into groups, every sequence of switches, phases and collectives in the groups at any relative speed, with application messages pending",
    "The one test of switching uses a single schedule and one division of four processes.",
    ["pcu/pcu.c", "pcu/pcu_pmpi.c", "pcu/pcu_mpi.c", "support/engpar_support.cpp"],
    [("switch", "PCU_Switch_Comm and pcu_pmpi_switch in pcu/pcu_pmpi.c"), ("duplicates", "pcu_pmpi_init2 in pcu/pcu_pmpi.c")])
add("C21", "Second adjacencies list exactly the neighbours through the requested type",
    "The vertex-edge-vertex adjacency of a type lists for each vertex exactly the vertices it shares an edge of that type with, and the edge-vertex-edge adjacency lists for each edge exactly the edges of its type that share one of the process's vertices with it; compressed lists have each neighbour once and not the entity itself, uncompressed ones keep every incidence. This holds for each type separately and after re-creation.",
    ["inputs", "programs", "configurations"],
    "every graph, type, compress option and order of creations, before and after migrations",
    "The tests create these adjacencies on graphs with one edge type and compare with first adjacencies of the same type.",
    ["agi/agiConstruct.cpp", "agi/agiIterate.cpp", "agi/agiVertex.cpp", "agi/agiEdge.cpp"],
    [("creation", "create_vev_adjacency/create_eve_adjacency in agi/agiConstruct.cpp"), ("iteration", "VEVIterator/EVEIterator in agi/agiIterate.cpp")])
add("C22", "Results do not depend on message timing",
    "Running the same program on the same distributed input gives the same distributed graph on every process, including its local numbering, and the same results of queries, whatever the relative speed of processes and delays of messages. This covers construction, migration, balancing, splitting, partition maps and shared tags.",
    ["schedules", "programs", "inputs"],
    "every interleaving of processes and message delays for every program of library operations",
    "A test run sees one schedule; two runs are never compared.",
    ["pcu/pcu_order.c", "pcu/pcu.c", "agi/agiMigrate.cpp", "partition/Diffusive/src/engpar_balancer.cpp"],
    [("deterministic order", "PCU_Comm_Order default and pcu_order_receive in pcu/pcu_order.c")])
add("C23", "Attribute updates and edge removal change exactly what they name",
    "Setting vertex weights, coordinates or edge weights makes exactly the named values readable on that process and carried by later migrations and saves. Removing an edge type leaves every vertex, every other edge type and their numbering and attributes as they were, with no edge of the removed type left, and later operations treat the graph accordingly.",
    ["programs", "histories", "inputs"],
    "every sequence of updates, removals, migrations and saves on every graph",
    "The tests remove edges once, from a graph that is then only inspected, and never set weights and then migrate.",
    ["agi/agiConstruct.cpp", "agi/agiVertex.cpp", "agi/agiEdge.cpp"],
    [("updates", "setWeights/setCoords in agi/agiVertex.cpp, setEdgeWeights in agi/agiEdge.cpp"), ("removal", "Ngraph::removeEdges in agi/agiConstruct.cpp")])
add("C24", "The picture files show the distributed graph as it is",
    "Writing the graph for visualisation produces on every process one well formed piece, and one list that names every piece and every array the pieces have. A piece shows each vertex the process owns at its coordinates, with its part and the value of the chosen tag, and each edge of the first type the process holds: every cell joins points of the piece that stand for the ends of an edge (or for a vertex and the hyperedge it is a pin of), no incidence is missing, none is added. Writing changes nothing in the graph.",
    ["inputs", "configurations", "programs"],
    "every graph with coordinates and at least one edge type, hypergraph or directed, with or without a tag on vertices or edges, any number of processes, before and after migrations",
    "The tests write the files and never read them.",
    ["agi/agiVTK.cpp"],
    [("pieces", "writeVTK, writePoints, writeCells in agi/agiVTK.cpp"), ("list of pieces", "writePSources and the headers in agi/agiVTK.cpp")])
add("C25", "Selection takes whole pieces of the boundary and respects its options",
    "A balancing step moves only vertices on edges of the selection type that cross to other processes, and only towards processes reached from them through the boundary. While the first target is treated, the vertices a process owns on the chosen edge leave together. When a limit on the growth of the edge cut is set, a piece of the boundary goes to a process only if, of the piece's edges, those not yet on that process number fewer than the limit times those already there.",
    ["inputs", "configurations", "histories"],
    "every graph, weights and placement, any number of processes, targets, step factors and limits, either order of traversal, at every step of a run",
    "The tests only check that balancing runs and leaves a valid graph; none looks at which vertices a step chose.",
    ["partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_queue.cpp", "partition/Diffusive/engpar_diffusive_input.h"],
    [("pieces", "constructCavities, updateCavities, getCavity, addCavity in engpar_selector.cpp"), ("limit", "edgeCutGrowth and Selector::select in engpar_selector.cpp"),
     ("destinations", "getCavityPeers in engpar_selector.cpp")])
add("C26", "What balancing reports is what it did",
    "The messages of a balancing run, at every verbosity, agree with the run: the targets treated and their order, the imbalances printed before and after every step, the numbers of vertices migrated and of vertices trimmed, the average boundary, the boundary, loads around it and amounts to send that every process tells at the highest verbosity, the steps of every target and of the whole run. The reason given for ending a target (tolerance reached, stagnation, nothing migrated, iteration limit) is the true one, the weight balancer tells convergence from a used up limit, and nothing is printed when silence is asked for.",
    ["inputs", "configurations", "histories"],
    "every graph, list of targets, tolerances, iteration limits and verbosity, for balancing of vertices and of weight, any number of processes, one included",
    "The tests print these messages and never read them.",
    ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_sd.cpp", "partition/Metrics/engpar_metrics.cpp"],
    [("messages", "Balancer::runStep/balance in engpar_balancer.cpp, WeightBalancer::runStep/balance in engpar_weightBalancer.cpp"), ("imbalances", "getImbalances in partition/Metrics"),
     ("stagnation", "SDSlope in engpar_sd.cpp")])
add("C27", "Diagnostics report what is there: validity check, test status and log",
    "checkValidity accepts, on every process, every graph that was built and changed only through the library, and rejects a graph whose counts do not add up or that holds a ghost vertex owned by its own process or by one that does not exist; a reported error makes the test status fail, and a new test starts clean. While the log is open the first process writes one entry for each logged operation, in the order of the calls, with its options, indented by the operations still running, and every operation ends the entries it began. Opening or closing the log changes no result.",
    ["inputs", "configurations", "histories"],
    "every graph, sequence of operations and number of processes, one included, the log opened and closed at any point between operations; one wrong number at a time for the validity check",
    "The tests open no log, and check only graphs that are valid.",
    ["agi/agiValid.cpp", "support/engpar_log.cpp", "support/engpar_message.cpp", "support/engpar_support.cpp"],
    [("validity", "checkValidity in agi/agiValid.cpp"), ("test status", "EnGPar_Error_Message, EnGPar_Start_Test, EnGPar_Hit_Error in support/engpar_message.cpp"),
     ("log", "EnGPar_Log_Function, EnGPar_End_Function in support/engpar_log.cpp and their callers in agi/ and partition/Diffusive/src")])
add("C28", "Files written through PCU hold exactly what was written",
    "What a process writes to a file through PCU (unsigneds, doubles, strings, bytes, in any order and number) is read back exactly, and the bytes of the file are the items in order: unsigneds and doubles in big-endian byte order, strings with their closing zero. The values in the caller's memory stay as they were. A process's debug file exists from the moment it was opened and holds exactly the lines that process printed since, in order; printing before that writes nothing, and opening it again loses nothing.",
    ["inputs", "configurations", "histories"],
    "every sequence of items and every value, on any number of processes, interleaved with other communication and with saving of graphs",
    "The tests write and read files on machines of one byte order only with the library's own reader, so a format that is wrong in the same way both times goes unnoticed; none opens debug files.",
    ["pcu/pcu_io.c", "pcu/pcu.c", "pcu/pcu_common.c"],
    [("files", "pcu_fopen, pcu_write_unsigneds, pcu_write_doubles, pcu_write_string and their readers in pcu/pcu_io.c"),
     ("debug output", "PCU_Debug_Open, PCU_Debug_Print in pcu/pcu.c; pcu_open_parallel in pcu/pcu_io.c")])
add("C29", "The part weight balancer's plan is sound and diffusion carries it out",
    "With the part weight balancer switched on, every target of a balancing run begins with a plan of weight to move between neighbouring processes. The plan is made from the loads in that target and the chosen boundary type, moves weight only from heavier to lighter neighbours and no more than the amount computed, none when the loads already are within three quarters of the tolerance, and goes on until they are, the imbalance stagnates or nothing more can move; the imbalance announced for it is the one it leads to. The steps that follow send vertices only to processes for which planned weight is still to be sent, stop selecting for one once its boundary share of that rest is reached, and in hypergraphs send nothing to a neighbour that shares more of the boundary than processes had on average when the target was begun. While the first target is treated they do not end, tolerance unmet and imbalance not stagnant, while a neighbour with planned weight can be reached over a boundary edge with few vertices.",
    ["inputs", "configurations", "histories"],
    "every distributed graph on two or more processes, list of priorities and tolerances, step factor, boundary type and weights, at every step of a run",
    "One test runs the balancer with this option and looks only at whether the graph stays valid; it sees neither the plan nor whether the steps follow it.",
    ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_targets.h", "partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "agi/agiWeightMigrate.cpp"],
    [("the plan", "Balancer::partWeightBalancer in engpar_balancer.cpp; WeightBalancer in engpar_weightBalancer.cpp"),
     ("its use", "the second constructor of Targets in engpar_targets.h; updatePartWeight, calculatePlanWeight in engpar_selector.cpp")])
add("C30", "Timers hold what was added to them, and the times told fit together",
    "A timer holds, on every process, exactly the times added to it and how many there were, whatever other timers are added before or after; its maximum and average over the processes, in total and per call, are those of these values and the same on every process. A migration that is timed adds one call each to the setup, communication, construction and total timers, and the parts do not exceed the total. The times a balancing run tells are those of the run: of every step's migration on its own, of all migrations, planning and distance computation within the whole, with the shares and ratios that follow from them, and migration statistics are told when something migrated.",
    ["inputs", "histories", "configurations"],
    "every sequence of additions, updates and timed migrations on any number of timers and processes; every balancing run and verbosity",
    "The tests use four timers in one fixed order and look at no value.",
    ["agi/agiMigrationTimers.cpp", "agi/agiMigrate.cpp", "partition/Diffusive/src/engpar_balancer.cpp"],
    [("timers", "MigrationTimers in agi/agiMigrationTimers.cpp"), ("timed migration", "Ngraph::migrate(Migration*, MigrationTimers*) in agi/agiMigrate.cpp"),
     ("times told", "printMigrationStats, Balancer::runStep, Balancer::balance in engpar_balancer.cpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
