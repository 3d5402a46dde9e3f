"""Spec ConvFn.tla over Ring.tla and Big.tla: each convolution (linear, cyclic, and, or, xor, max, subset) and transform (Fourier,
Walsh-Hadamard, subset sums and their inverse) as its defining sum; that the transforms turn convolutions into pointwise products is
model-checked over Z/5. Recorded calls: lengths from 1, both operands and the result aliased in every allowed way, kernels longer than
the cyclic list, prime fields of several root orders down to the smallest, plain integers, complex roots on integer data, both FFT
variants. PolyBig.tla, sizes to 2^17: cyclic and linear convolutions of repeating patterns (sparse times 1 - x^t), and/or/xor/max of
operands with few non-zero entries."""
TECH = 'TLA+ spec ConvFn.tla over Ring.tla/Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Root orders at least the padded length; with complex<double> only small integer data, rounded.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'convfn', asan=True, opt='-O0')
    eb = c.pool.submit(c.build, 'polybig', opt='-O2')
    mc = c.model_async('ConvFn', LAW % c.budget(2, 4), workers='2')
    bl = c.big_laws()
    n, s = c.budget(1, 40), c.seed * 100
    c.functional('ConvFn', ex.result(), [[s + i, k * n, i] for i, k in enumerate([30, 30, 30, 30, 25, 10])], K)
    c.functional('PolyBig', eb.result(), [[s + 6, 8 * n, 6], [s + 7, 10 * n, 7]], what='large')
    mc.result(), bl.result()
