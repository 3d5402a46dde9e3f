"""Spec IoText.tla: the text of every printable type (pairs, arrays, vectors, sets, maps, triples, fractions, modular numbers,
polynomials, vectors, matrices, symbolic, Clifford and PGA blades, and nestings of them) as a function of its components and
of the settings in force; a manipulator's setting holds from its construction to its destruction, then the previous one
returns. TLC generates nestings of manipulators with printed values; the real text must be equal. Tokens: each token and
delimiter is, after white space, the longest run of its characters; random texts over separators, white space, letters and
arbitrary bytes, all stock token types, restored skipws flag, integer lists."""
TECH = 'TLA+ spec IoText.tla (settings model-checked, tokenizer law on all short texts; histories generated by TLC and replayed)'
NOTE = 'There are no parsing operators for the math types. A list of integers must not end in a separator (the library then appends a zero); alphanumeric tokens on ASCII text.'
K = 'CONSTANTS\nMaxD = 6\nNums = {0, 1, 2, 3, 4, 6, 7, 12, 14, 100}\n'
def run(c):
    ex = c.pool.submit(c.build, 'iotext', asan=True)
    mc = c.model_async('IoText', 'INIT Init\nNEXT MNext\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNums = {0}\nMaxD = %d\n' % c.budget(4, 5), workers='2')
    h = c.generate('IoText', K, c.budget(300, 8000), 30)
    n, s = c.budget(400, 8000), c.seed * 100
    c.recorded('IoText', ex.result(), [['tok', s + i, n] for i in range(4)], K, what='tokens', start='begin')
    c.replay('IoText', ex.result(), h, K)
    mc.result()
