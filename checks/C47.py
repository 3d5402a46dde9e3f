"""Spec Symbolic.tla: programs on a stack of expression trees, their fully parenthesised text, and an independent reader of such text; the model check
runs every program of a few steps (all operators, names, positive and negative numbers) and requires the reader to return the tree, so the text
determines the expression. Recorded from the code: random programs over every operator in plain and compound form, with operands that are the same
object, the text of every value left; and generic algorithms of the library (powers, sums, products, matrix products, 2d products) run on symbolic
values, whose text TLC reads back and evaluates under three valuations."""
TECH = 'TLA+ spec Symbolic.tla (text determines the expression: model-checked); recorded programs and generic algorithms checked by TLC'
NOTE = 'The order in which a generic algorithm combines its values is not fixed: its text is judged by value.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT LReads\nCONSTRAINT LBound\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'symfn', asan=True, opt='-O0')
    mc = c.model_async('Symbolic', LAW % c.budget(6, 7), workers='4')
    n, s = c.budget(1500, 15000), c.seed * 100
    c.functional('Symbolic', ex.result(), [[s + i, n] for i in range(4)], K)
    mc.result()
