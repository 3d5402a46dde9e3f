"""Spec Counting.tla: look-up tables (ranges, powers, factorials, inverse factorials from any k!, inverses, element-wise power, inversion, alternation,
accumulation), Stirling numbers of both kinds by table, row, column and term, partitions and the Euler function, Bernoulli numbers, factorials
and binomials modulo p^e by every variant, prime exponents of factorials, binomials and multinomials, linear recurrences, Lucas sequences,
Berlekamp-Massey, figurate numbers and divisor sums, reductions. Model-checked to 30 (thorough 60): the definitions against enumerating set partitions,
permutations, subsets and partitions, companion matrices against iterating, units modulo p^e against n!. Recorded over integers, fixed and
run-time moduli and fractions; n to 10^18 modulo prime powers and for recurrences."""
TECH = 'TLA+ spec Counting.tla (laws model-checked against enumeration); recorded calls checked by TLC'
NOTE = 'Field-based variants are called below the characteristic; inv_factorials needs the factorials used to be invertible.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'counting', asan=True, opt='-O0')
    mc = c.model_async('Counting', LAW % c.budget(30, 60), workers='4')
    bl = c.big_laws()
    n, s = c.budget(30, 300), c.seed * 100
    c.functional('Counting', ex.result(), [[s + i, n, i] for i in range(6)], K)
    mc.result(), bl.result()
