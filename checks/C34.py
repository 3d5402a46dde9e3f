"""Spec IntFn.tla over Big.tla: floor/ceiling/nearest division, multiples, gcd, extended gcd (Bezout identity, minimal coefficients, step count),
lcm, the part of b made of primes of a, square and cube roots both ways, power tests, powers, absolute value, bounds, as exact
functions on the integers; the definitions' characteristic properties are model-checked on all small arguments. Recorded calls of ten
integer types (8-64 bits, both signs; 8-bit unary functions for every argument; extremes, perfect powers +-1 and multiples +-1) must
give the exact result whenever the type can represent it."""
TECH = 'TLA+ spec IntFn.tla over Big.tla (characteristic properties model-checked); recorded calls checked by TLC'
NOTE = 'gcd of negatives up to sign (documented). Division ties go away from zero. Floating-point square and cube roots are not covered.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'intfn', asan=True)
    mc = c.model_async('IntFn', LAW % c.budget(14, 40), workers='2')
    bl = c.big_laws()
    n, s = c.budget(400, 12000), c.seed * 100
    c.functional('IntFn', ex.result(), [[s + i, n, i] for i in range(8)], K)
    mc.result(), bl.result()
