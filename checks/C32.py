"""Spec Sieve.tla over Arith.tla: the tables of primes, prime counts, totients, Moebius and Mertens values, numbers of prime factors and
of divisors, divisor sums, smallest and biggest prime factors, for 0..n-1; the segmented sieves; prime_holder answering the same in any
order of questions. Model-checked: the factorization formulas against counting divisors and coprimes, up to 300. Recorded: every n from
0 to 130 (thorough 300) in all pointer modes with arrays of exactly the documented size under the address sanitizer, random n to 3000,
tables of 10^6 to 10^7 entries at random places, squares and their ends,
every segment inside 0..15 and around prime squares, segments near 10^12 whose factorizations are verified, holders of every small size."""
TECH = 'TLA+ spec Sieve.tla over Arith.tla (laws model-checked); recorded sieves checked by TLC'
NOTE = 'Segments near 10^12 are checked by sampled positions.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN = %d\nLim = 10\n'
K = 'CONSTANTS MaxN = 0\nLim = 3100\n'
def run(c):
    ex = c.pool.submit(c.build, 'sieve', asan=True, opt='-O0')
    mc = c.model_async('Sieve', LAW % c.budget(300, 700), workers='2')
    bl = c.big_laws()
    n, s = c.budget(60, 400), c.seed * 100
    c.functional('Sieve', ex.result(), [[s + i, n, i] for i in range(6)], K)
    mc.result(), bl.result()
