"""Spec GraphFn.tla, relations DfsRun, ParentsOk, LcaOk, Hld, HldEx/Walk: the visitor calls are those of the depth-first
search the spec runs itself (pre-order entries, the closing -1 of each node, depths, refused nodes not entered, optional
source); depths, ancestors and distances follow from the root paths of the forest; the heavy-light layout gives every
subtree and every chain consecutive positions, each inner node exactly one heavy child of maximum size, sizes and chain
parents right and the graph's edges (with weights) preserved; k-th ancestors are entries of the root path; the segments
of a walk cover the u-v path (nodes, or edges by their lower ends) exactly once, in the stated direction and offsets.
All forests on up to 4 nodes, random paths, stars, caterpillars, binary and random trees and forests up to 40 nodes; ancestors, distances and
k-th ancestors also in forests up to 270 nodes."""
TECH = 'TLA+ spec GraphFn.tla (executable depth-first search and root paths); recorded visitor calls, queries and walks checked by TLC'
NOTE = 'Walks are between connected nodes. heavy_light_decomposition_ex::parent(u) with one argument does not compile (ambiguous overload) and is not exercised.'
from checks.C15 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'gtree', asan=True)
    n, s = c.budget(60, 1200), c.seed * 100
    c.functional('GraphFn', ex.result(), [['tree', s + i, n, i] for i in range(4)], K)
