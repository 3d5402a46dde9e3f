"""Spec Poly.tla / PolyFn.tla over Ring.tla (integers, rationals, residues of any modulus) and Big.tla: polynomials as coefficient
sequences, the product as the defining double sum, quotient and remainder by p = q d + r with deg r < deg d, inverse by p r = 1 mod x^L,
derivative, integral, evaluation, composition, discrete sum, order, degree, and arithmetic of residues modulo an irreducible polynomial;
evaluation, product-rule, division and order laws are model-checked for all small polynomials. Recorded calls: eight rings, every
aliasing of the operands, truncated products of every length, degrees across each algorithm threshold (schoolbook, Karatsuba, FFT, FFT
with CRT, Hensel division), trailing zero coefficients, sparse operands, each internal multiplication routine by itself. PolyBig.tla, sizes to 320000: polynomials made of blocks of repeating
patterns become sparse times 1 - x^t, so the whole product (and p = q d + r) is decided exactly from a few hundred coefficients, at
every algorithm the library switches to."""
TECH = 'TLA+ spec PolyFn.tla over Ring.tla/Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Division: the leading coefficient of the divisor is invertible (or the divisor monic). Zero finding over floating point is out of scope.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'polyfn', asan=True, opt='-O0')
    eb = c.pool.submit(c.build, 'polybig', opt='-O2')
    mc = c.model_async('PolyFn', LAW % c.budget(2, 3), workers='2')
    bl = c.big_laws()
    n, s = c.budget(1, 30), c.seed * 100
    c.functional('PolyFn', ex.result(), [[s + i, k * n, i] for i, k in enumerate([60, 60, 50, 40, 12, 6, 3, 10, 6, 30])] + ([[s, 0, 10, 100000]] if c.thorough else []), K)
    c.functional('PolyBig', eb.result(), [[s + i, k * n, i] for i, k in enumerate([8, 3, 4, 4, 5])], what='large')
    mc.result(), bl.result()
