"""Spec Bst.tla: the state is the in-order sequence of entries (key, value, multiplicity) plus duplicate mode and
comparator direction; each public operation is an action whose event carries its arguments, its result and the whole
observable container (both walks, size, find_kth for every k, positions, counts). TLC explores the spec exhaustively
for sequences up to MaxLen (order, uniqueness, multiplicity invariants), then TLC's simulator produces histories
(short ones over few keys where all operations collide, long ones over 40 keys, a few of ~220 events (quick; 500 thorough) that grow to 300 keys), which drivers/bst.cpp replays on
binary_search_tree and treap (map and set flavour, three duplicate modes, both comparator directions, four priority
sources including degenerate ones) under AddressSanitizer; TLC accepts or rejects each recorded log."""
TECH = 'TLA+ spec Bst.tla; TLC-generated histories replayed on the real trees; logs validated by TLC'
NOTE = 'Model checking of the specification is exhaustive in small bounds; conformance is by replay of generated histories (sampled), each event of which is checked in full. Trusted: TLC, the driver, clang.'
IMPLS = '{"bst", "bstset", "treap", "treap1", "treap2", "treap3", "treapset"}'
MODES = '{"ignore", "count", "store"}'
def consts(keys, maxlen, impls=IMPLS, modes=MODES, cnts='{1, 2}'):
    return 'CONSTANTS\n Keys = %s\n MaxLen = %d\n Impls = %s\n Modes = %s\n Cnts = %s\n' % (keys, maxlen, impls, modes, cnts)

def run(c):
    exe_f = c.pool.submit(c.build, 'bst', asan=True)
    mc = c.model_async('Bst', 'INIT GenInit\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS Sorted Unique CountsOk FifoOk\nCONSTRAINT Small\n'
                       + consts('{1, 2, 3}', c.budget(3, 5), '{"bst"}'), workers='2')
    gen = [c.pool.submit(c.generate, 'Bst', consts('1..5', 8), c.budget(1600, 30000), 50, next='GenNext'),
           c.pool.submit(c.generate, 'Bst', consts('1..40', 60), c.budget(160, 3000), 120, next='BigNext'),
           c.pool.submit(c.generate, 'Bst', consts('1..300', 260), c.budget(4, 60), c.budget(220, 500), next='BigNext', name='BstLong', nproc=4)]
    hs = [h for g in gen for h in g.result()]
    exe = exe_f.result()
    c.replay('Bst', exe, hs, consts('{1}', 1), what='generated histories')
    mc.result()
