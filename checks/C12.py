"""Spec StrFn.tla, relations Kmp and Aho: the reported positions are exactly the occurrences in increasing order, cut off
where the callback stopped the search, and the result is the last one reported (n if none); after each text symbol the
automaton's state spells the longest suffix of the text that is a prefix of a dictionary word, its word count is the
number of dictionary words ending there, and count_matches is their sum. Inputs: all binary texts up to 7 with all
patterns up to 3, plus random, periodic, Fibonacci and run-structured texts with patterns cut out of the text."""
TECH = 'TLA+ spec StrFn.tla (definition by quantification over positions); recorded calls of kmp_search and aho_corasick_trie checked by TLC'
NOTE = 'Non-empty patterns and dictionary words; texts up to 90 symbols; periodic texts up to 200000 symbols through closed forms (StrBig.tla).'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxL = %d\n'
K = 'CONSTANT MaxL = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'strfn', asan=True)
    mc = c.model_async('StrFn', LAW % c.budget(4, 6), workers='2')
    n, s = c.budget(600, 12000), c.seed * 100
    c.functional('StrFn', ex.result(), [['kmp', s + i, n, i] for i in range(4)] + [['aho', s + i, n] for i in range(4)], K)
    bl, ml = c.big_laws(), c.model_async('StrBig', LAW % c.budget(4, 6), workers='2')
    c.functional('StrBig', ex.result(), [['kmpbig', s + i, c.budget(30, 300)] for i in range(2)], K)
    mc.result(); bl.result(); ml.result()
