"""Spec Coll.tla: a search returns the first position at which the monotone predicate holds (the upper end if none) and asks only
inside the range; with a step eps, a value within eps of the boundary; lower/upper bounds of non-decreasing and decreasing functions
by definition; sorted, reversed, take, filter, transform, run-length, length-limited comparison, contains and reserve_more as
functions of sequences, with their laws model-checked on all short sequences. Every predicate on up to 33 positions over five
iterator kinds, thresholds anywhere in the 16-, 32- and 64-bit ranges; helpers on five container kinds,
sequences to 500 elements with runs of hundreds, length limits over the whole size_t range."""
TECH = 'TLA+ spec Coll.tla (definitions by quantification, laws model-checked); recorded calls checked by TLC'
NOTE = 'The width of a range must fit its type; grouping and counting helpers do not exist in the library.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'coll', asan=True)
    mc = c.model_async('Coll', LAW % c.budget(6, 8), workers='2')
    n, s = c.budget(300, 9000), c.seed * 100
    c.functional('Coll', ex.result(), [[s + i, n, i] for i in range(6)], K)
    mc.result()
