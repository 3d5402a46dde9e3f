"""Spec StrFn.tla, relation PalTree: palindromic substrings are defined by quantification over ranges. After each appended
symbol: whether a new palindrome appeared, the number of distinct ones, of all occurrences and the length of the longest
palindromic suffix; at the end every node's length, first position, number of occurrences, suffix-chain depth, longest
proper palindromic suffix and child edges, and that the nodes are exactly the distinct palindromes. All binary strings
up to 8, all ternary up to 5 and structured random strings; the number of occurrences is cross-checked in the model."""
TECH = 'TLA+ spec StrFn.tla (palindromes by definition); recorded palindrome_tree contents checked by TLC'
NOTE = 'Strings up to 64 symbols, alphabets up to 4; unary strings of 66000 to 90000 symbols through closed forms (StrBig.tla).'
from checks.C12 import LAW, K
def run(c):
    ex = c.pool.submit(c.build, 'strfn', asan=True)
    mc = c.model_async('StrFn', LAW % c.budget(4, 6), workers='2')
    n, s = c.budget(120, 2500), c.seed * 100
    c.functional('StrFn', ex.result(), [['pal', s + i, n, i] for i in range(4)], K)
    bl, ml = c.big_laws(), c.model_async('StrBig', LAW % c.budget(4, 6), workers='2')
    c.functional('StrBig', ex.result(), [['palbig', s + i, c.budget(2, 20)] for i in range(2)], K)
    mc.result(); bl.result(); ml.result()
