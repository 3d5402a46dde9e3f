"""Spec HashFn.tla: a hash component is the sum of s[i] * B^i mod M; the cumulative hash holds the sequence it has been given
(assign replaces it, push, pop) and get(b, e) is the hash of that part; hash objects add, subtract, multiply, shift and divide by
powers of the base componentwise; concatenation shifts. Laws (prefix differences) model-checked on all short sequences.
Recorded histories over six hash types (1-3 components, 32/64-bit, signed and unsigned, boundary residues). std::hash of pairs and
tuples, nested, folds component hashes by the documented hash_combine; equal values have equal hashes."""
TECH = 'TLA+ spec HashFn.tla over Big.tla (state = the sequence; laws model-checked; recorded histories validated by TLC)'
NOTE = 'Non-negative elements; moduli small enough that the sum of two residues fits the type; 0 <= begin <= end <= size.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'hashfn', asan=True)
    mc = c.model_async('HashFn', LAW % c.budget(5, 7), workers='2')
    bl = c.big_laws()
    n, s = c.budget(70, 1400), c.seed * 100
    c.recorded('HashFn', ex.result(), [[s + i, n] for i in range(6)], K)
    mc.result(), bl.result()
