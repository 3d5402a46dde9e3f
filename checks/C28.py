"""Spec Random.tla over Big.tla: MT19937 by its published recurrence on 624 words (seeding from a word and from arrays of any length,
tempering, block renewal), its integer and real draws, save/load as arrays and as text; xorshift64* and xorshift1024* on 64-bit
words; range reduction, the biggest multiple and the at most 20 draws of a uniform selection on 8/16/32/64-bit words. The spec is
checked against the published test vector of MT19937 and for exact uniformity of accepted draws on 8-bit words; recorded call
scripts (draws across block renewals, interleaved saves, loads, reseeds and ranges) are validated by TLC."""
TECH = 'TLA+ spec Random.tla (state machine on 32/64-bit words, published vectors as assumptions); recorded call scripts validated by TLC'
NOTE = 'Seeds of xorshift non-zero; range widths representable in the target type; randNorm only for its number of draws (its second argument acts as a standard deviation); automatic seeding from the system not covered.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Uniform\nCHECK_DEADLOCK FALSE\nCONSTANT MaxW = %d\n'
K = 'CONSTANT MaxW = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'rng', asan=True)
    mc = c.model_async('Random', LAW % c.budget(40, 256), workers='2')
    bl = c.big_laws()
    n, s = c.budget(10, 140), c.seed * 100
    c.recorded('Random', ex.result(), [[s + i, n] for i in range(7)], K)
    mc.result(), bl.result()
