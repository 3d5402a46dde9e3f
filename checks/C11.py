"""Spec Trie.tla: the list of stored words with their documented 1-based indices (erasing moves the last word to the
freed index). add, append, find, get, erase by index and by word, for_each below any stored word (lexicographic order),
clear; the number of words and of distinct prefixes (num_letters) after every event. Near misses (prefixes and
extensions of stored words) are generated on purpose. Explored exhaustively over a small dictionary."""
TECH = 'TLA+ spec Trie.tla; TLC-generated histories replayed on prefix_tree (three instantiations) under ASan; logs validated by TLC'
NOTE = 'Conformance over generated histories (mostly up to 14 words over two or three letters, a few of 200 events with 80 words).'
def run(c):
    ex = c.pool.submit(c.build, 'trie', asan=True)
    k = lambda a, l, n: 'CONSTANTS\n K = %d\n MaxL = %d\n MaxN = %d\n' % (a, l, n)
    mc = c.model_async('Trie', 'INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Distinct NoEmpty\nVIEW MCView\n' + k(2, 2, c.budget(4, 5)), workers='3')
    g = [c.pool.submit(c.generate, 'Trie', k(a, l, n), c.budget(q, q * 20), d, next='GenNext', name='Gen%d' % i)
         for i, (a, l, n, q, d) in enumerate([(2, 4, 14, 250, 60), (3, 3, 10, 250, 40), (3, 6, 14, 150, 60)])]
    g.append(c.pool.submit(c.generate, 'Trie', k(3, 9, 80), c.budget(4, 60), c.budget(200, 400), next='GenNext', name='Long', nproc=4))
    c.replay('Trie', ex.result(), [h for x in g for h in x.result()], k(3, 9, 80), what='histories')
    mc.result()
