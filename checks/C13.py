"""Spec StrFn.tla, relations SuffixArray and Rmq: the suffix array is sorted (consecutive suffixes compared symbol by
symbol), the order array is its inverse, every queried common-prefix length and substring comparison is the direct one;
a range-minimum query returns an index inside the range whose value no element of the range beats. Queries go to a copy
of the structure made before the original was rebuilt or destroyed. All binary strings up to 7, all ternary up to 4, and
random, periodic, Fibonacci, run-structured and single-letter strings up to 400 with small and large alphabets; block
sizes 1, 2, 3, 5, 8 and both comparators."""
TECH = 'TLA+ spec StrFn.tla (lexicographic order by definition); recorded suffix_array and direct_rmq results checked by TLC'
NOTE = 'Symbols are non-negative (the SA-IS buckets are indexed by them); strings up to 400, periodic strings up to 70000 symbols and arrays up to 2^20 elements through closed forms (StrBig.tla).'
from checks.C12 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'strfn', asan=True)
    mc = c.model_async('StrFn', LAW % c.budget(4, 6), workers='2')
    n, s = c.budget(120, 2500), c.seed * 100
    c.functional('StrFn', ex.result(), [['sa', s + i, n, i] for i in range(4)] + [['rmq', s + i, n] for i in range(4)], K)
    bl, ml = c.big_laws(), c.model_async('StrBig', LAW % c.budget(4, 6), workers='2')
    c.functional('StrBig', ex.result(), [['sabig', s + i, c.budget(12, 120)] for i in range(2)], K)
    mc.result(); bl.result(); ml.result()
