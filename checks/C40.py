"""Spec MatrixFn.tla over Ring.tla and Big.tla: sums, products, scalings, transposes, powers, blocks and order by definition; the
determinant by expansion, the rank as the size of the largest non-zero minor, the inverse by A X = X A = I. That two ways to compute
determinant and rank agree, with the product and transpose rules, is model-checked over Z/2 and Z/3. Recorded calls: all matrices up to
3x3 over Z/2 and 2x2 over Z/3 (thorough: 3x3 over Z/3), random ones up to 6x6 over five fields and the rationals, singular ones of
every shape (zero and repeated columns, nilpotent, permuted, dependent rows), exponents up to 2^63, scaling by an own element."""
TECH = 'TLA+ spec MatrixFn.tla over Ring.tla/Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Inverse and negative powers only of regular matrices; determinants over exact fields only.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'matrixfn', asan=True, opt='-O0')
    mc = c.model_async('MatrixFn', LAW % c.budget(3, 3), workers='4')
    bl = c.big_laws()
    n, s = c.budget(1, 40), c.seed * 100
    c.functional('MatrixFn', ex.result(), [[s + i, k * n, i] for i, k in enumerate([36, 40, 30, 36, 20, 1])], K)
    mc.result(), bl.result()
