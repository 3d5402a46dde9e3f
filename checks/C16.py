"""Spec GraphFn.tla, relations Scc, Topo, Closure, Reduction, Sat2: components are exactly the classes of mutual
reachability, listed so that every arc goes forward; a topological sort of an acyclic graph lists every node once with
every arc going forward; the transitive closure holds exactly the reachable pairs of distinct nodes, once each; the
reduction of an acyclic graph keeps exactly the arcs not implied by a longer path; 2-SAT is satisfiable iff some
assignment (brute force over all of them) satisfies the clauses and the prefilled values, and the returned assignment
does. All 512 digraphs on 3 nodes, random digraphs (loops, parallel arcs) and DAGs up to 40 nodes, formulas up to 6
variables with single-literal and empty clauses and prefilled values."""
TECH = 'TLA+ spec GraphFn.tla (reachability by closure, satisfiability by enumeration); recorded results checked by TLC'
NOTE = 'topological_sort and transitive_reduction are checked on acyclic graphs, as documented.'
from checks.C15 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'gpath', asan=True)
    n, s = c.budget(120, 2500), c.seed * 100
    c.functional('GraphFn', ex.result(), [['order', s + i, n, i] for i in range(4)], K)
