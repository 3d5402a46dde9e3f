"""Spec DoubleInt.tla: numbers of w bits with signed and unsigned reading, and beside it the construction from halves (carry chains,
three-multiplication product, shift-and-subtract division, shifts by cases), which the model check shows to equal them for all operands of halves of
1–3 bits. Recorded from the code: words of 8, 16, 32, 64 bits and doubled words nested up to 512 bits, operands concentrated on the carry edges, plain and
compound forms, full products, signed and unsigned division, adc/sbb with both carries, shifts below, at and beyond the half and the width, comparisons,
conversions from int and half and to uint64 and hex, and add_overflow of every width. TLC recomputes each."""
TECH = 'TLA+ spec DoubleInt.tla (construction model-checked for all small operands); recorded calls checked by TLC'
NOTE = 'prim_int computes signed + - * on the bare type: that wraparound is what the compiler gives. prim_int::assign_extended_shr by 0 (documented undefined) and INT_MIN / -1 on bare words are not called.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'doubleint', asan=True, opt='-O0')
    mc = c.model_async('DoubleInt', LAW % c.budget(2, 3), workers='4')
    bl = c.big_laws()
    n, s = c.budget(3000, 30000), c.seed * 100
    c.functional('DoubleInt', ex.result(), [[s + i, n // (4 if i == 0 else 1), i] for i in range(7)], K)
    mc.result(), bl.result()
