"""Spec Heap.tla: the state is a bag of <<key, tag>> plus the element currently in front (any element no other precedes:
ties are nondeterministic in the specification). Actions: bulk construction (range, vector, repeated insert), push, pop
(removes exactly the front shown before), sort, draining, in-place rekeying followed by rebuild. Histories are
generated by TLC over few keys (many ties) in both comparator directions."""
TECH = 'TLA+ spec Heap.tla; TLC-generated histories replayed; logs validated by TLC (nondeterministic spec)'
NOTE = 'Specification exhaustive in small bounds; conformance over generated histories.'
def run(c):
    ex = c.pool.submit(c.build, 'heap', asan=True)
    k = lambda v, n: 'CONSTANTS\n Keys = %s\n MaxLen = %d\n Impls = {"range", "vec", "push"}\n' % (v, n)
    mc = c.model_async('Heap', 'INIT GenInit\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS FrontOk\nCONSTRAINT Few\n' + k('1..2', c.budget(3, 4)), workers='2')
    g = [c.pool.submit(c.generate, 'Heap', k('1..4', 6), c.budget(1500, 30000), 40, next='GenNext'),
         c.pool.submit(c.generate, 'Heap', k('1..60', 40).replace('MaxLen = 40', 'MaxLen = 3'), c.budget(100, 3000), 120,
                       next='IF out.op = "init" THEN DoStart ELSE (\\E k \\in P(Keys) : Push(k)) \\/ (\\E k \\in P(Keys) : Push(k)) \\/ Pop \\/ (nt % 9 = 0 /\\ (Sort \\/ Drain))', name='HeapBig')]
    c.replay('Heap', ex.result(), [h for x in g for h in x.result()], k('{1}', 1), what='heap histories')
    mc.result()
