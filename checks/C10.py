"""Spec LazyTreap.tla: a sequence of (key, value) with non-decreasing keys. Key insertion, insertion before a position,
erasure by key, position and range, affine range updates (a non-commutative lazy action), range folds with a
non-commutative aggregate, lookups, copies and swaps; after every event the size and the aggregate held at the root are
compared, on some events single values or the whole sequence (so that pending updates stay pending in between). Calls
that take iterators follow the class's protocol: pending updates are pushed with propagate_down_to for the iterators
passed, and update() is followed by propagate_up."""
TECH = 'TLA+ spec LazyTreap.tla; TLC-generated histories replayed on lazy_treap under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories (mostly up to 40 elements, a few of 250 events that grow to 200); aggregates and values are residues mod 97.'
def run(c):
    ex = c.pool.submit(c.build, 'lazytreap', asan=True)
    k = lambda n, m: 'CONSTANTS\n MaxN = %d\n MaxK = %d\n' % (n, m)
    mc = c.model_async('LazyTreap', 'INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Sorted Monoid\nVIEW MCView\n' + k(3, c.budget(2, 3)), workers='3')
    g = [c.pool.submit(c.generate, 'LazyTreap', k(n, m), c.budget(q, q * 20), d, next='GenNext', name='Gen%d' % i)
         for i, (n, m, q, d) in enumerate([(8, 4, 200, 40), (40, 50, 250, 90), (20, 8, 250, 60)])]
    g.append(c.pool.submit(c.generate, 'LazyTreap', k(200, 300), c.budget(4, 60), c.budget(250, 500), next='GenNext', name='Long', nproc=4))
    c.replay('LazyTreap', ex.result(), [h for x in g for h in x.result()], k(200, 300), what='histories')
    mc.result()
