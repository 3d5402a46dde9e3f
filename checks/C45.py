"""Spec GeomAlg.tla: multivectors as 16 coefficients over words of the generators e0..e3; the multiplication table is computed by sorting and
contracting words, and gives the geometric, wedge, inner and join products, duals, reverses, conjugates, norms, inverses, sandwiches. Model-checked
over all basis triples: associativity, the documented squares, anti-automorphisms, closure of the sandwich. Recorded: every pair of the
14 pga classes under * ^ & | + - and % (right factor orthogonal, as documented), Cl(3) rotors, vectors and multivectors, points moved by
translators and rotors, incidence of points with lines and planes; vector2d/3d/Nd component-wise, by scalars (also their own components),
products, order, unit and near. Scalars int, int64, modulo 101."""
TECH = 'TLA+ spec GeomAlg.tla (laws model-checked over the basis); recorded calls checked by TLC'
NOTE = 'make_rotor and make_reflector (double) are compared to 5 digits; multivector scalars must be constructible from 0.'
LAW = 'INIT LInit\nNEXT LNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = 16\n'
K = 'CONSTANT MaxN = 0\n'
def run(c):
    ex = c.pool.submit(c.build, 'geom', asan=True, opt='-O0')
    mc = c.model_async('GeomAlg', LAW, workers='4')
    bl = c.big_laws()
    n, s = c.budget(30, 300), c.seed * 100
    c.functional('GeomAlg', ex.result(), [[s + i, n, i] for i in range(7)], K)
    mc.result(), bl.result()
