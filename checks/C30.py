"""Spec ModRing.tla over Big.tla: arithmetic on the representatives 0..M-1 of the residues modulo M; ring laws and the number of solutions
of a division are model-checked for every small M. Recorded calls: three storage kinds, eight integer types (8-64 bits, signed and
unsigned), moduli from 1 to the largest value of the type, operands at the boundaries, conversions from every integer type (including
the most negative values), operands of another or no modulus with a representative below M, aliased operands, powers with 64-bit
exponents, extended gcd. All pairs of residues for M up to 16."""
TECH = 'TLA+ spec ModRing.tla over Big.tla (ring laws model-checked); recorded calls checked by TLC'
NOTE = 'A second operand of another modulus must have a representative below the first modulus (the code documents normalized input); division where no solution exists is unspecified. Driver built with and without optimisation.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'modring', asan=True)
    e2 = c.pool.submit(c.build, 'modring', opt='-O2')
    mc = c.model_async('ModRing', LAW % c.budget(12, 24), workers='2')
    bl = c.big_laws()
    n, s = c.budget(40, 1200), c.seed * 100
    c.functional('ModRing', ex.result(), [[s + i, n, i] for i in range(7)], K)
    c.functional('ModRing', e2.result(), [[s + 10 + i, n // 2, i] for i in range(6)], K)
    mc.result(), bl.result()
