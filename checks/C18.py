"""Spec GraphFn.tla, relations MaxFlow, MaxFlowNet, Matching, Assign: a flow is accepted iff it respects every capacity,
is conserved, has the returned value and leaves no augmenting path in its residual network (and for networks up to 6
nodes its value equals the brute-force minimum cut); a matching iff its edges come from the input, share no end and are
as many as the brute-force maximum (for larger ones: no augmenting path); an assignment iff it is a permutation, its
inverse agrees, and its cost is the brute-force optimum (for larger ones: no exchange cycle makes it cheaper). TLC checks
both certificates against brute force on all small instances. Dense, layered, unit-capacity, antiparallel and relabelled networks up to 26 nodes, int, 64-bit
and double with large scales,
both push-relabel rules, reused objects; cost matrices with ties and negative costs up to 16x16, resized objects."""
TECH = 'TLA+ spec GraphFn.tla (optimality certificates plus brute force); recorded results of dinic_flow, push_relabel_flow, bipartite_matching and hungarian checked by TLC'
NOTE = 'push_relabel is given an infinity above the total capacity, as its header demands.'
from checks.C15 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'gflow', asan=True)
    mc = c.model_async('GraphFn', 'INIT MInit\nNEXT LNext\nINVARIANT MLemma\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = 4\n', workers='2')
    n, s = c.budget(110, 2500), c.seed * 100
    c.functional('GraphFn', ex.result(), [['flow', s + i, n] for i in range(4)], K)
    mc.result()
