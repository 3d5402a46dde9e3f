"""Spec Sums.tla over Arith.tla: floor sums, power sums, sums over floor(n/k), prime power sums and prime counts (also by residue mod 4) at
every quotient, Dirichlet convolution, division, inverse and Moebius transform in their plain, multiplicative and completely
multiplicative forms, the sieve and the recursion solving t(n) = sum p(k) M(n/k), square-free counts, totient sums of every dimension,
divisor sums, sums of multiplicative functions, coprime sums and the Mertens family. Model-checked up to 40 (thorough 120): Euclid's floor sum
against adding up, totients against counting tuples, the convolution identities. Recorded: every small n and random n to 3000, over
integers, fixed and run-time moduli and fractions, random (multiplicative) functions, tables carrying garbage or earlier calls' values;
large n against published values and, for 10^5 to 2*10^6,
by identities over the whole table of quotients (the Mertens values weigh up to 1, totient sums to n(n+1)/2, square-free counts of n/k^2 to
n, multiplicative sums to closed forms) and by counting the primes between neighbouring quotients."""
TECH = 'TLA+ spec Sums.tla (laws model-checked); recorded sums and tables checked by TLC'
NOTE = 'Power sums modulo p only for exponents below p - 1; prime_pi_deprecated is given one prime beyond the square root.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN = %d\nLim = 200\n'
K = 'CONSTANTS MaxN = 0\nLim = 3100\n'
def run(c):
    ex = c.pool.submit(c.build, 'sums', asan=True, opt='-O0')
    mc = c.model_async('Sums', LAW % c.budget(40, 120), workers='4')
    bl = c.big_laws()
    n, s = c.budget(30, 300), c.seed * 100
    c.functional('Sums', ex.result(), [[s + i, n, i] for i in range(11)], K)
    mc.result(), bl.result()
