"""Spec Dioph.tla: continued fractions, convergents and minimal ratios, square-root convergents and their recurrences, lattice points under lines,
Farey neighbours, Pell equations (PQa expansion, fundamental solutions, |N|<sqrt D, one representative per class, listings by bounds and counts),
sums of two squares by count and list, Cornacchia, Pythagorean, Eisenstein 60/120 and almost-Pythagorean triples, fixed legs and triple generators.
Model-checked to 30 (thorough 60): closed forms against enumerating the solutions. Recorded calls over the whole small ranges and random
larger ones; Pell representatives are compared with every solution found by enumeration up to the bound that a class must reach."""
TECH = 'TLA+ spec Dioph.tla (laws model-checked against enumeration); recorded calls checked by TLC'
NOTE = 'Pell solutions are enumerated for fundamental units below 200000; triples are enumerated to perimeter/hypotenuse 120.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'dioph', asan=True, opt='-O0')
    mc = c.model_async('Dioph', LAW % c.budget(30, 60), workers='4')
    bl = c.big_laws()
    n, s = c.budget(30, 300), c.seed * 100
    c.functional('Dioph', ex.result(), [[s + i, n, i] for i in range(7)], K)
    mc.result(), bl.result()
