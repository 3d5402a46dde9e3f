"""Spec ShuntYard.tla: the value of an expression by recursive descent with a pending operator (an operator ends the operand of a
pending one if it binds less tightly, or equally and is left-associative); model-checked against bracketing: for all small
trees over all tables, both the fully and the minimally bracketed text read back as the tree. Recorded conversions (all
arrangements of up to three operators over 108 tables; random tables, functions of 0 to 3 arguments, several expressions) must be
the specified postfix form; evaluation is checked in the free algebra and for the shipped integer/modular/floating-point tables."""
TECH = 'TLA+ spec ShuntYard.tla (recursive-descent definition, model-checked against bracketed trees); recorded conversions and evaluations checked by TLC'
NOTE = 'Well-formed expressions; unary right-associative operators are prefix, unary left-associative ones postfix and bind tightest; operators of equal precedence share their associativity. Malformed bracketing, ROL/ROR (marked TODO) not covered; floating-point functions at one point each.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT Dep = %d\n'
K = 'CONSTANT Dep = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'shunt', asan=True)
    mc = c.model_async('ShuntYard', LAW % c.budget(2, 3), workers='2')
    n, s = c.budget(600, 15000), c.seed * 100
    c.functional('ShuntYard', ex.result(), [['all', 0, 4, i] for i in range(4)] + [['conv', s + i, n] for i in range(4)] + [['val', s + i, n] for i in range(4)], K)
    mc.result()
