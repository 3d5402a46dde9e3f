"""Spec Perm.tla: permutations as functions; composition, inverse, powers, canonical cycles, transpositions, application to a line, equality
and order however the permutation was obtained; roots with parity (existence by cycle lengths, minimality); lexicographic successors
of combinations of multisets and of partitions; the n-th permutation. Model-checked on all permutations of up to 5 elements: group
laws, notation round trips, ranks, and root existence, parity and minimality against enumeration of all roots. Recorded calls over five
index types, all roots of all permutations of up to 5 elements, whole combination and partition enumerations."""
TECH = 'TLA+ spec Perm.tla (laws and root criterion model-checked against enumeration); recorded calls checked by TLC'
NOTE = 'A product applies its left factor first (as the code and its tests do; the comment says the reverse). Roots of positive order. Elements of nth_permutation distinct.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'permfn', asan=True)
    mc = c.model_async('Perm', LAW % c.budget(4, 5), workers='2')
    bl = c.big_laws()
    n, s = c.budget(70, 1600), c.seed * 100
    c.functional('Perm', ex.result(), [[s + 0, n, 0], [s + 1, n, 1], [s + 2, n, 2], [s, 0, 3, c.budget(4, 6)], [s + 4, 2 * n, 4], [s + 5, n, 5], [s + 6, 2 * n, 6]], K)
    mc.result(), bl.result()
