"""Spec SeriesFn.tla over Poly.tla, Ring.tla, Big.tla: series modulo x^N by their defining equations - product, inverse s r = 1, exp by
r' = s' r, ln by r' s = s', powers as repeated products, composition by Horner's rule modulo x^N, reversion by s(r(x)) = x, shift,
dilation, derivative, integral, exponential generating functions, Newton iteration of a root; the product and chain rules are
model-checked for all small series over Z/5. Recorded calls: N from 1 to 70 (not only powers of two), the three storage kinds, five
rings, series without a constant term, the zero series, huge exponents, shifts of N and more places, aliased operands. PolyBig.tla: product, quotient, inverse, exp, ln and powers of
quotients of sparse polynomials up to N = 1500, by the defining equations cleared of denominators."""
TECH = 'TLA+ spec SeriesFn.tla over Poly.tla/Ring.tla/Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Domains as documented: inverse of series with a unit constant term, exp of s(0) = 0, ln of s(0) = 1, non-negative exponents, N below the characteristic.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'seriesfn', asan=True, opt='-O0')
    eb = c.pool.submit(c.build, 'polybig', opt='-O2')
    mc = c.model_async('SeriesFn', LAW % c.budget(3, 4), workers='2')
    bl = c.big_laws()
    n, s = c.budget(1, 25), c.seed * 100
    c.functional('SeriesFn', ex.result(), [[s + i, k * n, i] for i, k in enumerate([9, 8, 8, 10, 7, 12])], K)
    c.functional('PolyBig', eb.result(), [[s + i, 4 * n, 5] for i in range(2)], what='large')
    mc.result(), bl.result()
