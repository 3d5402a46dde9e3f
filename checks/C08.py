"""Spec DisjointSet.tla: a partition of 0..n-1 (elements appear on first use) with per-class weights. unite, find, count,
add_count, clear, copies; distinct() and size() after every event; a separate event asks for all representatives, so
that path compression happens between arbitrary operations and not after each. The representative may be any member of
the class but must be the same for all its members. The specification is explored exhaustively for small n."""
TECH = 'TLA+ spec DisjointSet.tla; TLC-generated histories replayed on disjoint_set under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories (mostly up to 24 elements and 70 events, a few of 200 events over 150 elements).'
def run(c):
    ex = c.pool.submit(c.build, 'dset', asan=True)
    k = lambda n: 'CONSTANTS\n MaxN = %d\n' % n
    mc = c.model_async('DisjointSet', 'INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Partition WSame\nVIEW MCView\n' + k(c.budget(5, 6)), workers='3')
    g = [c.pool.submit(c.generate, 'DisjointSet', k(n), c.budget(q, q * 20), d, next='GenNext', name='Gen%d' % i)
         for i, (n, q, d) in enumerate([(6, 200, 40), (24, 250, 70), (12, 250, 50)])] + [c.pool.submit(c.generate, 'DisjointSet', k(24), c.budget(200, 4000), 40, next='TourNext', name='Tour'), c.pool.submit(c.generate, 'DisjointSet', k(150), c.budget(4, 60), c.budget(200, 400), next='GenNext', name='Long', nproc=4)]
    c.replay('DisjointSet', ex.result(), [h for x in g for h in x.result()], k(150), what='histories')
    mc.result()
