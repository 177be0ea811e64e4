#!/usr/bin/env python3
"""Writes known-findings.txt: `fixed:` lines from the fix commits in /repo, and the `known:` lines kept below."""
import subprocess, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = [  # (property, subject of the commit, what failed)
 ("C05", "store traditional graph edge weights", "directed graphs with edge weights: an edge showed the weight of another edge (weights were stored by position in the input)"),
 ("C03", "create ghost weights in the array form", "constructGhosts(lid_t,gid_t*,part_t*): reading a ghost's weight crashed (the ghost weight tag was never made)"),
 ("C02", "send the edges of every type", "migrating a vertex of a graph with several edge types lost its edges of all types but one"),
 ("C02", "keep traditional edges whose target", "directed graph: an edge whose target migrates but whose source stays was lost"),
 ("C03", "update the owners of all ghost", "after a migration a ghost's owner was stale when another process moved it in the same step"),
 ("C23", "keep valid empty arrays when an edge type", "operations after removeEdges(t) of a type that is not the last dereferenced freed arrays"),
 ("C21", "build and iterate the second adjacencies", "create_vev/eve_adjacency of a type other than 0 listed neighbours through type 0"),
 ("C14", "credit moved weight to the vertex", "weight moved between vertices was credited to the wrong local vertex of the receiver"),
 ("C14", "update the ghost weights after moving", "ghost copies kept the old weight after weight migration"),
 ("C17", "average every value of the partition evaluation", "the last printed averages of the partition evaluation (cuts, later edge types) were sums that had not been divided by the number of processes"),
 ("C17", "do not overflow the name buffers", "evaluatePartition wrote past its name buffers for long names"),
 ("C17", "count no disconnected components on an empty part", "a process without vertices contributed -1 disconnected components"),
 ("C17", "keep the fractions of edge weights in the sides", "fractional edge weights were truncated to integers in the sides of a part"),
 ("C17", "count disconnected components of traditional graphs", "on directed graphs the number of disconnected components depended on edge directions"),
 ("C19", "seed the distance computation with an existing edge", "the distance queue was seeded with an edge number that does not exist on the process"),
 ("C19", "visit the edges of traditional graphs in the pull", "the pull based traversal visited no edges of directed graphs"),
 ("C19", "keep the traversals of the distance computation apart", "on directed graphs the traversals of the distance computation shared state and gave wrong distances"),
 ("C13", "exchange weights both ways between neighbors", "on directed graphs a process did not learn the weight of neighbours that only have edges towards it and never balanced with them"),
 ("C11", "run no more balancing steps than the iteration limits", "one step more than maxIterations / maxIterationsPerType was run"),
 ("C11", "do not send cavities that have no peers", "a cavity without peers dereferenced the end of an empty set"),
 ("C12", "account for all edges sent with the vertices", "on directed graphs the edges sent with a vertex were not all accounted for, so completed edge types could be overloaded"),
 ("C11", "trim plans for any number of completed dimensions", "trimming a plan with more than five completed dimensions wrote past a fixed array"),
 ("C11", "allow cavities of any size", "an edge joining 100 or more vertices of a process wrote past a fixed array"),
 ("C18", "define cengpar_createLocalSplitInput", "cengpar_createLocalSplitInput was defined with another parameter order than declared and bound by Fortran"),
 ("C10", "reduce truth values in PCU_Or and PCU_And", "PCU_Or and PCU_And combined bits/minima instead of truth values: wrong for negative arguments"),
 ("C20", "finalize only a PCU that EnGPar initialized", "after one EnGPar_Initialize/Finalize cycle, EnGPar_Finalize stopped a message layer the application had started itself"),
 ("C16", "label all vertices when loading a binary edge list", "targets of edges were relabelled and looked up again as global ids (wrong ghosts and edges), and vertices without an edge on their process were never labelled"),
 ("C15", "renumber the original owners when the graph", "original owners recorded before a split kept the process numbers of the small communicator"),
 ("C15", "give local ParMETIS the edges between", "a local ParMETIS split passed no adjacency on every process but 0 of the small communicator"),
 ("C15", "renumber the owners before Zoltan runs", "owners of neighbouring vertices were passed to Zoltan in the numbering of the small communicator"),
 ("C15", "give Zoltan the chosen edge type", "Zoltan callbacks ignored the edge type and over-counted the pins, leaving the list of the last vertex partly unwritten"),
 ("C17", "evaluate graphs that have no edge types", "evaluatePartition of a graph without edge types (its last one removed) followed the arrays of type 0 and crashed"),
 ("C01", "attach migrated coordinates by vertex id", "with message ordering off (PCU_Comm_Order(false)) migrated coordinates were attached to other vertices"),
 ("C26", "tell a used up iteration budget", "the weight balancer reported convergence in maxIterations+1 iterations when its budget was used up, and completion of the budget when it converged in the last iteration"),
 ("C24", "write the ghost points that the cells", "pictures of directed graphs had cells that refer to points of ghost vertices that were not written"),
 ("C27", "keep the whole text of log entries", "log entries of constructGraph, constructVerts and balance() lost their text (sprintf from a buffer into itself); createBinGraph with a long path overflowed its buffer"),
 ("C27", "end exactly those log entries", "with the log open removeEdges, setOriginalOwners (already set) and serial balancing left entries open for ever, and the weight balancer ended one it never began, which aborted the next logged operation"),
 ("C14", "reset the size of a weight plan", "WeightMigration::clear kept the size, so a cleared plan still claimed weight to move"),
 ("C17", "give the status of a graph room", "printStats overflowed its buffer with seven types of edges and counts of five digits"),
 ("C29", "aim the part weight balancer's amounts", "with the part weight balancer vertices were sent to neighbours that may not be sent to, and amounts already used up became negative targets that ended the selection before anything was sent"),
 ("C30", "give every migration timer its own place", "each migration timer used the place after its own: adding a timer after another was used emptied that one, the last one's count was never set, and the seventeenth was written past the end of the array"),
 ("C30", "tell the time of each balancing step's own migration", "the time told for each step's migration was that of all migrations so far"),
 ("C14", "let no side be too heavy for the weight balancer", "balanceWeights of a hypergraph moved nothing when the boundary weighed more than ten times the number of edges of type 0"),
 ("C07", "allow file names of any length", "saveToFile, loadFromFile and writeVTK overflowed their buffers of 256 characters with longer prefixes"),
]
KNOWN = []
if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    out = ["# Defects of SCOREC/EnGPar found by these checks. `fixed:` entries are repaired in /repo and suppress nothing."]
    for pid, subj, what in FIXED:
        c = [l.split()[0] for l in log if subj in l]
        assert len(c) == 1, subj
        out.append("fixed: property=%s %s %s" % (pid, c[0], what))
    out += KNOWN
    open(os.path.join(R, "known-findings.txt"), "w").write("\n".join(out) + "\n")
