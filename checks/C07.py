"""Spec QuotMap.tla: two maps as plain functions over the admissible keys (0..lo and the quotients max/j above lo, or any
key for lohi_map). Insert, subscript (default creation), checked access, erase, unchecked access of present keys,
reset_max, swap and copies; after each event the count and at() outcome of every admissible key are compared. The
specification is explored exhaustively on small bounds together with the injectivity of the quotient indexing."""
TECH = 'TLA+ spec QuotMap.tla; TLC-generated histories replayed on sqrt_map and lohi_map under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories (low bounds 1..12, largest keys up to 150).'
def run(c):
    ex = c.pool.submit(c.build, 'quotmap', asan=True)
    k = lambda n, los, im, v=9: 'CONSTANTS\n MaxN = %d\n MaxV = %d\n Los = {%s}\n Impls = {%s}\n' % (n, v, los, im)
    mc = c.model_async('QuotMap', 'INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANTS NoAlias InDom\nCONSTRAINT MCValsOK\nVIEW MCView\n' + k(c.budget(5, 8), '2', '"sqrt", "lohi"', c.budget(1, 2)), workers='3')
    g = [c.pool.submit(c.generate, 'QuotMap', k(150, l, im), c.budget(n, n * 20), 40, next='GenNext', name='Gen%d' % i)
         for i, (l, im, n) in enumerate([('1, 2, 3, 5, 7, 10, 12', '"sqrt"', 250), ('1, 2, 4, 9, 12', '"sqrt64"', 120)])]
    g2 = c.pool.submit(c.generate, 'QuotMap', k(20, '1, 2, 5, 12', '"lohi"'), c.budget(120, 1500), 40, next='GenNext', name='GenL')
    c.replay('QuotMap', ex.result(), [h for x in g for h in x.result()], k(150, '1', '"sqrt"'), what='sqrt_map', args=[150])
    c.replay('QuotMap', ex.result(), g2.result(), k(20, '1', '"lohi"'), what='lohi_map', args=[20])
    mc.result()
