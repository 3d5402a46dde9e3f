"""Spec GraphOps.tla: a graph under editing as a bag of arcs for each node; generated histories of add_node, add_edge,
add_edge2 (also of an edge that lives in the list being extended), delete_edge, delete_node (the last node takes the
freed number), contract, deduplicate_edges and copies are replayed on unweighted and weighted graphs and the whole
adjacency compared after every step. GraphFn.tla, relations Chromatic and GCmp: the chromatic polynomial is monic of
degree n and its value at 0..n equals the number of proper colourings counted by the spec (hence equals it everywhere):
all graphs up to 4 nodes, random to 7, and the tree/cycle/complete formulas; == and < compare adjacency lists."""
TECH = 'TLA+ specs GraphOps.tla (model-checked, histories generated by TLC and replayed) and GraphFn.tla (colourings by enumeration)'
NOTE = 'Which of several parallel arcs with different weights survives deduplication is left free.'
from checks.C15 import K
def run(c):
    ex = c.pool.submit(c.build, 'gops', asan=True)
    mc = c.model_async('GraphOps', 'INIT Init\nNEXT Next\nINVARIANT Laws\nPROPERTY SymKept\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxN = %d\nMaxE = %d\nWs = {1}\n' % (3, c.budget(3, 4)), workers='2')
    h = c.generate('GraphOps', 'CONSTANTS\nMaxN = 6\nMaxE = 24\nWs = {1, 2, 3}\n', c.budget(250, 6000), 16, next='GenAll')
    n, s = c.budget(40, 800), c.seed * 100
    c.functional('GraphFn', ex.result(), [['chrom', s + i, n, i] for i in range(4)], K)
    c.replay('GraphOps', ex.result(), h, 'CONSTANTS\nMaxN = 0\nMaxE = 0\nWs = {}\n')
    mc.result()
