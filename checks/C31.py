"""Spec ModEq.tla over Big.tla: the solution sets of congruences — Chinese remainders, mixed radix digits, Jacobi symbols, square roots
modulo primes, prime powers and composites, orders, primitive roots and roots of the largest order, k-th roots, discrete logarithms.
Modulo a small m the sets are enumerated; else each root is checked and their number fixed by the group's order. Model-checked for every
modulus up to 60 (thorough 120): those counts, the order test by prime factors, reciprocity, when a primitive root exists. Recorded
calls: every residue for small moduli, random ones up to 2^62, prime powers to 2^62 and 3^39, smooth and prime moduli near the limits."""
TECH = 'TLA+ spec ModEq.tla over Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Root arguments coprime to the modulus and factorizations correct, as documented; discrete_log_pp only while p^(2s-1) fits the type; sub-linear logarithms only of solvable equations.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'modeq', asan=True, opt='-O0')
    mc = c.model_async('ModEq', LAW % c.budget(60, 120), workers='4')
    bl = c.big_laws()
    n, s = c.budget(1, 10), c.seed * 100
    c.functional('ModEq', ex.result(), [[s + i, k * n, i] for i, k in enumerate([60, 80, 60, 40, 20, 40, 40])], K)
    mc.result(), bl.result()
