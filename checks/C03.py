"""Spec Rope.tla: the state is a sequence; push, positional and iterator insertion, erase, range erase (empty ranges
included), element assignment, clear, iterator arithmetic and comparison are actions whose events show both walks,
every index, every iterator position. Histories generated by TLC (short ones, ones that grow to 60 elements, and a few of ~250 events that grow to 200) are
replayed under ASan on rope with four priority sources (random, ascending, descending, constant), so degenerate
tree shapes occur."""
TECH = 'TLA+ spec Rope.tla; TLC-generated edit scripts replayed under ASan; logs validated by TLC'
NOTE = 'Specification exhaustive in small bounds; conformance over generated scripts, every event compared in full.'
def run(c):
    ex = c.pool.submit(c.build, 'rope', asan=True)
    k = lambda v, n, im: 'CONSTANTS\n Vals = %s\n MaxLen = %d\n Impls = %s\n' % (v, n, im)
    IM = '{"rand", "inc", "dec", "eq"}'
    mc = c.model_async('Rope', 'INIT GenInit\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Consistent\nCONSTRAINT LenOk\n' + k('1..3', c.budget(3, 5), '{"rand"}'), workers='2')
    g = [c.pool.submit(c.generate, 'Rope', k('1..3', 9, IM), c.budget(1200, 20000), 50, next='GenNext'),
         c.pool.submit(c.generate, 'Rope', k('1..9', 60, IM), c.budget(150, 3000), 130, next='GenNext \\/ DoIns \\/ DoIns \\/ DoInsIt'),
         c.pool.submit(c.generate, 'Rope', k('1..9', 200, IM), c.budget(4, 60), c.budget(250, 500), next='GenNext \\/ DoIns \\/ DoIns \\/ DoIns \\/ DoInsIt', name='RopeLong', nproc=4)]
    c.replay('Rope', ex.result(), [h for x in g for h in x.result()], k('{1}', 1, IM), what='edit scripts')
    mc.result()
