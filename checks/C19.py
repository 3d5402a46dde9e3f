"""Spec GraphFn.tla, relations ChainDec and Bicon: bridges are the edges whose removal separates their ends, cut vertices
those whose removal adds a component, blocks the classes of edges no single vertex separates (TLC checks on all small
graphs that these three definitions fit together), the reported components the blocks of more than one edge, and the
block-cut tree has exactly the nodes and edges its documentation gives, one tree for each component. The chain
decomposition nests components, blocks and chains: first a cycle, then paths, each edge at most once, each block's
chains covering it. All simple graphs on up to 4 nodes, random 5-8 node graphs, cactus-like gluings up to 18 nodes."""
TECH = 'TLA+ spec GraphFn.tla (definitions by removal, model-checked for coherence); recorded biconnectivity structures checked by TLC'
NOTE = 'Simple undirected graphs (documented domain).'
from checks.C15 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'gbicon', asan=True)
    mc = c.model_async('GraphFn', LAW % c.budget(4, 5), workers='2')
    n, s = c.budget(100, 2500), c.seed * 100
    c.functional('GraphFn', ex.result(), [['bic', s + i, n, i] for i in range(4)], K)
    mc.result()
