"""Spec GraphFn.tla, relations ShortestTree, AllPairs and SpanningTree: distances are accepted by a complete certificate
(the source is at 0, no arc can shorten any distance, the recorded predecessors form real arcs of the right weight and
lead back to the source; the next pointers of Floyd-Warshall walk to the target with exactly the claimed weight), and a
spanning tree is accepted iff it spans the root's component with real edges and, for every weight t, has as many edges
of weight at most t as the component allows. TLC checks that criterion against brute force over all spanning trees of
all small weighted graphs. Inputs: directed and undirected graphs with loops and parallel arcs, zero weights, negative
arcs without negative cycles (Floyd-Warshall), all weightings {absent,1,2} of K4 (Prim), random up to 45 nodes, and
the same with 64-bit and double weights beyond 32 bits (every distance the integer one scaled)."""
TECH = 'TLA+ spec GraphFn.tla (certificates of optimality, themselves model-checked against brute force); recorded results of dijkstra, floyd_warshall and prim_spanning_tree checked by TLC'
NOTE = 'Graphs up to 45 nodes; integer weights far below the caller-supplied infinity.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Lemma\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'gpath', asan=True)
    mc = c.model_async('GraphFn', LAW % c.budget(4, 5), workers='2')
    n, s = c.budget(150, 3000), c.seed * 100
    c.functional('GraphFn', ex.result(), [['path', s + i, n, i] for i in range(4)], K)
    mc.result()
