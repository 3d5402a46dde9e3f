"""Spec Factor.tla over PrimeB.tla and Arith.tla: primality (exact below 3e23), the strong test against given bases, prime factorizations
(product right, factors prime and distinct), divisors up to a bound, signed square-free divisors, sigma0, totient and Carmichael's lambda
from a factorization, digits and their strings, smooth numbers, joint reduction of fractions. Model-checked: those against counting, and
that at most a quarter of the bases pass a composite, up to 150 (thorough 400). Recorded: every small number, numbers at each limit of
the base sets, composites built to fool all but one base of a set, random numbers of every size and width."""
TECH = 'TLA+ spec Factor.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Pollard rho may give up by its documentation: only factor_integer is required to be complete, on the sampled inputs.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'factor', asan=True, opt='-O0')
    mc = c.model_async('Factor', LAW % c.budget(150, 400), workers='4')
    bl = c.big_laws()
    n, s = c.budget(40, 300), c.seed * 100
    c.functional('Factor', ex.result(), [[s + i, n, i] for i in range(7)], K)
    mc.result(), bl.result()
