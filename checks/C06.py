"""Spec BitVec.tla: two vectors as 0/1 sequences; every public operation (bit and proxy writes, unary and binary range
application with overlapping self-source, reverse, swap, rotations, shifts of any amount, resizing, combination of
different lengths, complement, comparisons, Hamming distance, scan, printing, copies) is defined bit by bit, and each
event shows all bits of both vectors. Lengths and positions concentrate on word boundaries of 8, 16, 32 and 64 bit
words. The specification itself is explored with a two-bit word."""
TECH = 'TLA+ spec BitVec.tla; TLC-generated histories over four word widths replayed under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories; positions biased to word boundaries, lengths up to three words (8 bits: five).'
def run(c):
    ex = c.pool.submit(c.build, 'bitvec', asan=True)
    k = lambda w, n: 'CONSTANTS\n Impls = {%s}\n MaxWords = %d\n' % (w, n)
    mc = c.model_async('BitVec', 'INIT MCInit\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Bits CmpLaw\nCONSTRAINT Lens\nVIEW MCView\n' + k('"w8"', c.budget(1, 2)), workers='3')
    g = [c.pool.submit(c.generate, 'BitVec', k(w, n), c.budget(q, q * 15), 40, next='GenNext', name='Gen%d' % i)
         for i, (w, n, q) in enumerate([('"w8"', 5, 700), ('"w16"', 3, 250), ('"w32"', 3, 200), ('"w64"', 3, 250), ('"w8", "w16", "w64"', 17, 30)])]
    c.replay('BitVec', ex.result(), [h for x in g for h in x.result()], k('"w8"', 1), what='histories')
    mc.result()
