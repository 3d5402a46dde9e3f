"""Spec RangeTree.tla: state = the underlying array; the fold is concatenation (free monoid, so any wrong order, missed,
duplicated or stale element shows) and for Fenwick the bag union (free commutative monoid). Actions: construction (empty
and from a range), point set, in-place writes with whole/range/index rebuild, lazily propagated affine and
node-refusable minimum range updates, range queries (empty ranges included), Fenwick add/sum/reset. Sizes 0..17, 31..33
(non powers of two) and up to 129 in long histories. Histories are generated by TLC and replayed under ASan."""
TECH = 'TLA+ spec RangeTree.tla over the free monoid; TLC-generated histories replayed; logs validated by TLC'
NOTE = 'By freeness of the monoid a correct word means a correct fold for every associative operation; histories are generated (sampled).'
def run(c):
    ex = c.pool.submit(c.build, 'rangetree', asan=True)
    k = lambda n, im='{"seg", "lazy", "fenwick"}': 'CONSTANTS\n Sizes = %s\n Impls = %s\n' % (n, im)
    sizes = '{' + ', '.join(map(str, list(range(0, 18)) + [31, 32, 33])) + '}'
    g = [c.pool.submit(c.generate, 'RangeTree', k(sizes, '{"%s"}' % i), c.budget(q, q * 15), 60, next='GenNext', name='Gen' + i)
         for i, q in (('seg', 600), ('lazy', 900), ('fenwick', 350))]
    g.append(c.pool.submit(c.generate, 'RangeTree', k('{63, 64, 65, 100, 127, 128, 129}'), c.budget(8, 120), c.budget(80, 200), next='GenNext', name='GenLong', nproc=4))
    c.model('RangeTree', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Splits Dom\n' + k(c.budget('{0, 1}', '{0, 1, 2}'), '{"seg", "lazy"}'), workers='2')
    c.replay('RangeTree', ex.result(), [h for x in g for h in x.result()], k('{1}'), what='histories')
