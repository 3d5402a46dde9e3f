"""Spec LinkCut.tla: the represented forest as a parent function with node values. link, cut, add, find_root,
find_parent, find_lca, depth, path aggregation get() with a non-commutative aggregate (the sequence of values from the
root), changing a value through the reference get() returns, and traverse() descents by depth and by aggregate. Legal
calls only (link of a root to another tree). The specification is explored exhaustively, with the definition of lowest
common ancestor by reachability as an invariant."""
TECH = 'TLA+ spec LinkCut.tla; TLC-generated histories replayed on link_cut_tree under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories (mostly up to 14 nodes and 90 events, a few of 250 events over 60 nodes).'
def run(c):
    ex = c.pool.submit(c.build, 'lct', asan=True)
    k = lambda n, v: 'CONSTANTS\n MaxN = %d\n MaxV = %d\n' % (n, v)
    mc = c.model_async('LinkCut', 'INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Forest LcaLaw\nVIEW MCView\n' + k(c.budget(4, 5), 1), workers='3')
    g = [c.pool.submit(c.generate, 'LinkCut', k(n, v), c.budget(q, q * 20), d, next='GenNext', name='Gen%d' % i)
         for i, (n, v, q, d) in enumerate([(5, 5, 200, 40), (14, 9, 300, 90), (9, 3, 250, 60)])]
    g.append(c.pool.submit(c.generate, 'LinkCut', k(60, 9), c.budget(4, 60), c.budget(250, 500), next='GenNext', name='Long', nproc=4))
    c.replay('LinkCut', ex.result(), [h for x in g for h in x.result()], k(60, 9), what='histories')
    mc.result()
