"""Spec Numbers.tla over Ring.tla and Big.tla: fractions as pairs in lowest terms, quadratic extensions R(sqrt D) of Z, Q and Z/m, the
projective line over them with its table of operations, Moebius and anti-Moebius transformations as maps of that line, nimbers by the
mex rule and Fermat powers, GF(2) words. Model-checked: the product of transformations is their composition, nim products form a
field and the tower step extends the mex table. Recorded calls: random and small operands over every coefficient type and storage kind,
aliased operands, every transformation of the line over Z/2 (thorough: Z/3), all nimbers below 16 (thorough: 256), words of 8..64 bits."""
TECH = 'TLA+ spec Numbers.tla over Ring.tla/Big.tla (laws model-checked); recorded calls checked by TLC'
NOTE = 'Operands whose exact result fits the word; undefined cases of the infinity table, division by zero and the quotient chosen by truncation over Z are left open; floating-point instances excluded.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'numfn', asan=True, opt='-O0')
    mc = c.model_async('Numbers', LAW % c.budget(4, 6), workers='4')
    bl = c.big_laws()
    n, s = c.budget(1, 30), c.seed * 100
    c.functional('Numbers', ex.result(), [[s + i, k * n, i] for i, k in enumerate([80, 40, 60, 60, 50, 40, 30, 25])], K)
    mc.result(), bl.result()
