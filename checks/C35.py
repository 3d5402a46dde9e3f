"""Spec BitFn.tla: words as sequences of bits; counts, logarithm, reversal, Gray codes and their inverse, highest and lowest bit, masks, bit
edits, erasing and mixing, negation, sign-magnitude conversion, powers of two and the next word with as many ones, defined bit by bit.
Involutions, adjacency of Gray codes and minimality of the next combination are model-checked on all words of a small width. All 8-bit
words and whole combination enumerations are replayed, 16/32/64-bit words at every single-bit boundary and at random."""
TECH = 'TLA+ spec BitFn.tla over Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Unsigned words (signed ones where the helper allows them); positions below the width; the next power of two of the largest words wraps to 0.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'bitfn', asan=True)
    e2 = c.pool.submit(c.build, 'bitfn', opt='-O2')
    mc = c.model_async('BitFn', LAW % c.budget(6, 8), workers='2')
    bl = c.big_laws()
    n, s = c.budget(500, 8000), c.seed * 100
    runs = [[s + i, n, i] for i in (0, 1, 2, 3, 5)]
    runs += [[s, 0, 4, x, x + 1024] for x in ([s * 37 % 60000] if c.tier == 'quick' else range(0, 65536, 1024))]
    c.functional('BitFn', ex.result(), runs, K)
    c.functional('BitFn', e2.result(), [[s + 10 + i, n // 2, i] for i in range(1, 4)], K)
    mc.result(), bl.result()
