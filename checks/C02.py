"""Spec Own.tla: three container slots; actions make, copy/move construction and assignment (self-assignment included),
swap, clear, insert, erase, range erase, destroy. Value semantics are the functional update of the slot map, so
"copies are independent" and "swap exchanges contents and comparator" are what the transition relation says. The driver
instantiates bst, treap (sets, maps and maps with multiplicities, the multiplicity 0 included) and rope with a counting allocator and with bounded_contiguous_allocator, elements count
constructions/destructions and carry their own address, and the run is under AddressSanitizer; each event reports the
contents of *all* slots, the number of live elements and, once no container is left, outstanding memory. Spec Alloc.tla
does the same for the allocator itself (capacity, distinct cells, contiguity, reuse, exhaustion, copies, swaps)."""
TECH = 'TLA+ specs Own.tla and Alloc.tla; TLC-generated ownership histories replayed under ASan; logs validated by TLC'
NOTE = 'Spec model-checked exhaustively in small bounds; conformance over generated histories. Moved-from containers are only destroyed or assigned. Trusted: TLC, ASan, driver.'
def run(c):
    ex = c.pool.submit(c.build, 'own', asan=True)
    ex2 = c.pool.submit(c.build, 'alloc', asan=True)
    def k(keys, n, impls, slots='1..3'):
        return 'CONSTANTS\n Slots = %s\n Keys = %s\n MaxLen = %d\n Impls = %s\n' % (slots, keys, n, impls)
    mc = c.model_async('Own', 'INIT GenInit\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS TreeOrdered DeadEmpty LiveOk\n' + k('1..2', c.budget(1, 2), '{"bst", "rope"}', '1..3'), workers='3')
    mc2 = c.model_async('Alloc', 'INIT GenInit\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Bounded Disjoint\nCONSTRAINT Few\nCONSTANTS\n Caps = {1, 2}\n MaxA = %d\n' % c.budget(2, 3), workers='2')
    g = c.pool.submit(c.generate, 'Own', k('1..6', 7, '{"bst", "treap", "rope", "bst_b", "treap_b", "rope_b", "bst_c", "treap_c", "bst_i", "treap_i"}'), c.budget(3200, 50000), 47, next='GenNext')
    g2 = c.pool.submit(c.generate, 'Alloc', 'CONSTANTS\n Caps = {1, 2, 3, 5}\n MaxA = 4\n', c.budget(400, 5000), 40, next='GenNext')
    hs = [h + [{'op': 'end'}] for h in g.result()]
    c.replay('Own', ex.result(), hs, k('1..2', 1, '{"bst"}'), what='ownership histories')
    c.replay('Alloc', ex2.result(), g2.result(), 'CONSTANTS\n Caps = {1}\n MaxA = 4\n', what='allocator histories')
    mc.result(); mc2.result()
