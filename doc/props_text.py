C=I+'structure/container/'; G=X+'algorithm/graph/'; XC=X+'structure/container/'; M=I+'algorithm/math/'; S=I+'structure/math/'
prop('C01','Search trees behave as ordered (multi)sets and maps',
 'After any sequence of insertions, erasures and lookups, a binary_search_tree or treap holds exactly the elements an ordered multiset (or set, or counted multiset, per the chosen duplicate mode) would hold. Size, emptiness, iteration order in both directions, find/lower_bound/upper_bound/equal_range, count_less_or_equal, find_kth and order_of all agree with that multiset, and elements that compare equal keep insertion order in multi mode.',
 ['histories','inputs'],'every sequence of operations, every key distribution, all three duplicate modes, with and without a map value',
 'The gtest suite replays a few fixed key orders; it cannot cover the shapes an adversarial interleaving of inserts and erases produces.',
 [C+'binary_search_tree.h',C+'treap.h'],[('add_to / propagate_update size bookkeeping',C+'binary_search_tree.h'),('swap_with_descendant and erase_node',C+'binary_search_tree.h'),('rotate-based heap priority maintenance',C+'treap.h')])
prop('C02','Tree containers own their nodes: copies independent, nothing leaked or reused',
 'Copying, moving, swapping, assigning, clearing and destroying a binary_search_tree, treap or rope, with the default or a bounded contiguous allocator, leaves every container with exactly the contents value semantics prescribe. Mutating one container never changes another, every stored element is destroyed exactly once and all memory is returned.',
 ['histories','configurations'],'every interleaving of copy/move/swap/assign/clear/insert/erase/destroy over several containers, over allocators',
 'Tests copy and swap once and never count live objects; the ownership argument ranges over histories.',
 [C+'binary_search_tree.h',C+'treap.h',C+'rope.h',C+'bounded_contiguous_allocator.h'],[('clear/_free_all/_clone',C+'binary_search_tree.h'),('allocator free list',C+'bounded_contiguous_allocator.h')])
prop('C03','A rope is a sequence',
 'After any sequence of positional insertions, erasures and range erasures a rope equals the sequence obtained by performing the same edits on an array. Indexing, size, iteration in both directions, positions of iterators and construction from ranges all agree with that sequence.',
 ['histories'],'every edit script','Tests exercise a handful of scripts; split/merge shapes depend on random priorities and history.',
 [C+'rope.h',C+'treap.h'],[('implicit key by subtree size',C+'rope.h')])
prop('C04','A binary heap always yields the extreme element',
 'After any sequence of pushes, pops, bulk construction and sorting, a binary heap holds exactly the pushed-minus-popped multiset, its front is an element no other precedes under the comparator, and sorting yields the sorted sequence of that multiset.',
 ['histories','inputs'],'every push/pop history, every comparator that is a strict weak order, duplicates included','Only short fixed sequences are tested.',
 [C+'binary_heap.h'],[('sift up / sift down',C+'binary_heap.h')])
prop('C05','Range-query trees equal folding the underlying array',
 'For any associative operation (commutative or not) and any interleaving of point updates, range updates, rebuilds and queries, segment_tree and lazy_segment_tree return the left-to-right fold of the current array over the queried half-open range, and a Fenwick tree returns the prefix fold. Empty ranges give the identity, element reads give the current element, and an update affects exactly the addressed positions.',
 ['histories','inputs'],'every size (not only powers of two), every range, every interleaving of updates and queries','Tests use one or two sizes and commutative operations mostly.',
 [C+'segment_tree.h',C+'lazy_segment_tree.h',S+'fenwick_tree.h'],[('bottom-up accumulation with separate left/right accumulators',C+'segment_tree.h'),('propagate before descend',C+'lazy_segment_tree.h')])
prop('C06','A bit vector is an array of bits under every word-wise operation',
 'After any sequence of sets, flips, range operations, resizes, shifts and bitwise combinations, a bit_vector equals the same operations performed bit by bit on an array, for every length and word size. Counts, comparisons, hashing of equal content and iteration depend only on the bits below the size.',
 ['histories','inputs'],'every length around word boundaries, every shift amount and range','Tests sample a few lengths and shifts; word-boundary masking errors hide between them.',
 [C+'bit_vector.h'],[('partial-word masks',C+'bit_vector.h')])
prop('C07','Quotient-indexed maps behave as plain maps',
 'sqrt_map and lohi_map store and return values exactly like an ordinary map over the keys they are specified for (all k below the threshold and all n/k), for any sequence of writes, reads, counts, erases, swaps, copies and changes of the largest key. Distinct admissible keys never alias.',
 ['histories','inputs'],'every n and threshold, every key of the admissible set','Tests use a couple of n.',
 [C+'sqrt_map.h',C+'lohi_map.h'],[('lo/hi indexing by n/k',C+'sqrt_map.h')])
prop('C08','Disjoint sets maintain exactly the generated equivalence relation',
 'After any sequence of unite and find operations, two elements have the same representative exactly if they are connected by the united pairs; unite reports whether it merged two classes, and class sizes and the number of classes are those of that partition.',
 ['histories'],'every sequence of unions and finds over every n','Path compression and union by rank depend on history.',
 [I+'structure/graph/disjoint_set.h'],[('path compression, union by rank',I+'structure/graph/disjoint_set.h')])
prop('C09','A link-cut tree represents the current rooted forest and its path folds',
 'After any legal sequence of link, cut, value updates and path queries, a link_cut_tree answers root, parent, lowest common ancestor, depth and root-path aggregates exactly as the explicit rooted forest does, with path values folded in path order, and its guided descents visit that path.',
 ['histories'],'every legal operation history on every forest','No test instantiates this header at all.',
 [C+'link_cut_tree.h'],[('splay / access / lazy reversal',C+'link_cut_tree.h')])
prop('C10','A lazy treap is a sequence with range aggregates and range updates',
 'After any sequence of insertions, erasures, range updates, copies and swaps a lazy treap holds the same sequence an array would hold after the same edits, and every range aggregate is the fold of that range with all updates applied in order.',
 ['histories'],'every edit script','No test instantiates this header at all.',
 [C+'lazy_treap.h'],[('push-down before rotate',C+'lazy_treap.h')])
prop('C11','A prefix tree is a map from strings, queryable by prefix and rank',
 'After any sequence of insertions, erasures and clears, a prefix tree reports exactly the stored strings: membership, counts, per-prefix counts, lexicographic enumeration and values all agree with a sorted map of strings.',
 ['histories','inputs'],'every set of strings incl. empty string and prefixes of each other','A few fixed dictionaries are tested.',
 [XC+'prefix_tree.h'],[('per-node subtree counters',XC+'prefix_tree.h')])
prop('C12','String search reports every occurrence and nothing else',
 'KMP search visits exactly the positions at which the pattern occurs, in increasing order, including overlapping occurrences, and honours early termination; an Aho-Corasick automaton is, after every symbol of every text, in the state spelling the longest suffix that is a prefix of a dictionary word and counts exactly the dictionary words that end there.',
 ['inputs'],'every text and pattern, every dictionary (words that are suffixes or prefixes of each other)','Few strings tested; aho_corasick_trie.h has no test.',
 [I+'algorithm/search/kmp_search.h',XC+'aho_corasick_trie.h'],[('failure function',I+'algorithm/search/kmp_search.h'),('suffix and dictionary links',XC+'aho_corasick_trie.h')])
prop('C13','Suffix arrays, LCP arrays and range-minimum queries are exact',
 'For every string the suffix array is the lexicographically sorted order of its suffixes, the rank array is its inverse, the LCP array gives the common-prefix lengths of neighbours and arbitrary LCP queries agree with direct comparison. A range-minimum structure returns, for every non-empty range, the minimum (and an index attaining it).',
 ['inputs'],'every string over every alphabet, every array, every range','suffix_array.h and range_minimum_query.h have no test.',
 [XC+'suffix_array.h',XC+'range_minimum_query.h'],[('induced sorting / doubling',XC+'suffix_array.h'),('sparse table and block masks',XC+'range_minimum_query.h')])
prop('C14','A palindrome tree lists exactly the distinct palindromic substrings',
 'After appending any string, the palindrome tree contains one node per distinct non-empty palindromic substring, with its length, its longest proper palindromic suffix and its number of occurrences.',
 ['inputs'],'every string','palindrome_tree.h has no test.',
 [XC+'palindrome_tree.h'],[('suffix links, series links',XC+'palindrome_tree.h')])
prop('C15','Shortest paths and spanning trees are optimal',
 'For every weighted graph in the documented domain, Dijkstra and Floyd-Warshall return the true shortest distances (unreachable vertices reported as such) with predecessor data that realises them, and Prim returns a minimum-weight spanning tree of the component of its root (other vertices reported as unreached).',
 ['inputs'],'every graph: multi-edges, self loops, zero weights, disconnected','Few fixed graphs.',
 [G+'dijkstra.h',G+'floyd_warshall.h',G+'prim_spanning_tree.h'],[('relaxation',G+'dijkstra.h')])
prop('C16','Reachability algorithms agree with the reachability relation',
 'For every directed graph: strongly connected components are exactly the mutual-reachability classes and are listed in topological order, in-degrees count incoming arcs, topological_sort of an acyclic graph lists every vertex once with every arc going forward, the transitive closure has exactly one edge for each pair of distinct vertices of which the second is reachable from the first, the transitive reduction of a DAG is its unique minimal subgraph with that closure, and 2-SAT reports satisfiable exactly if some assignment that respects the prefilled variables satisfies all clauses, and then returns one.',
 ['inputs'],'every digraph and every 2-CNF','Few fixed graphs.',
 [G+'tarjan_scc.h',G+'topological_sort.h',G+'transitive_closure.h',G+'sat2.h'],[('lowlink',G+'tarjan_scc.h')])
prop('C17','Rooted-tree queries agree with the tree',
 'For every rooted tree or forest, lowest common ancestors, depths, k-th ancestors, heavy-light path decompositions and iterative depth-first traversals agree with the definition: each path is covered exactly once by the reported segments, and each vertex is entered and left once in a valid depth-first order.',
 ['inputs'],'every tree shape, every pair of vertices','Few fixed trees.',
 [G+'lowest_common_ancestor.h',G+'heavy_light_decomposition.h',G+'iterative_dfs.h'],[('binary lifting',G+'lowest_common_ancestor.h'),('heavy child selection',G+'heavy_light_decomposition.h')])
prop('C18','Flows, matchings and assignments are feasible and optimal',
 'For every network, Dinic and push-relabel return the value of a maximum flow with a feasible flow assignment of that value; bipartite matching returns a matching of maximum size and the Hungarian algorithm an assignment of optimal cost.',
 ['inputs'],'every network incl. parallel and antiparallel edges, zero capacities, disconnected sink','Few fixed networks; hungarian.h untested.',
 [G+'dinic_flow.h',G+'push_relabel_flow.h',G+'bipartite_matching.h',G+'hungarian.h'],[('level graph, residual capacities',G+'dinic_flow.h')])
prop('C19','Cut edges, cut vertices and biconnected components are exact',
 'For every simple undirected graph, the reported cut edges and cut vertices are exactly those whose removal increases the number of components, and the chain decomposition, the biconnected components (blocks of more than one edge) and the block-cut tree with its vertex map have the documented structure.',
 ['inputs'],'every simple undirected graph, connected or not','Few fixed graphs.',
 [G+'chain_decomposition.h'],[('chain decomposition over DFS tree',G+'chain_decomposition.h')])
prop('C20','Graphs keep their edges; chromatic polynomials count colourings',
 'Adding, deleting and transforming vertices and edges of a graph changes exactly the specified edges. The chromatic polynomial of every small graph, evaluated at k, equals the number of proper k-colourings.',
 ['histories','inputs'],'every edit script; every graph and every k','Few fixed graphs.',
 [I+'structure/graph/graph.h',G+'chromatic_polynomial.h'],[('deletion-contraction',G+'chromatic_polynomial.h')])
prop('C21','Parallel execution runs every job once and never shares user callbacks',
 'Under every thread schedule and any number of workers, parallel_execute runs every job of the provider exactly once, collects every result exactly once, and never invokes the job provider, worker provider or result collector from two threads at the same time. It returns only after all work is done. A LOCK block runs once, alone among the blocks of its mutex, and frees the mutex whether it is left at its end, by continue or by an exception.',
 ['schedules','configurations'],'every interleaving, any worker/job count','concurrency_test.cpp is not built here and a test runs one schedule.',
 [I+'concurrency/concurrency.h'],[('mutex around provider and collector',I+'concurrency/concurrency.h')])
prop('C22','Readers deliver the byte stream intact whatever the buffering',
 'File, string and buffered readers, and the fast and simple parsing layers on top, deliver exactly the bytes and tokens of the input, in order, for every buffer size and every mix of byte, block, token and number reads and skips (a block read may deliver fewer bytes than asked for, never others); end of input is reported exactly when the input is exhausted.',
 ['inputs','histories','configurations'],'every input, every read script, every buffer capacity','Tests use large buffers relative to short inputs.',
 [I+'io/reader.h',I+'io/fast_io.h'],[('buffer refill',I+'io/reader.h')])
prop('C23','What the writers write, the readers read back',
 'Every value of a supported type written through a writer, in any buffer configuration and mix of calls, appears in the output as its standard textual form, in call order, nothing lost or duplicated at flush or destruction; reading it back yields the same value.',
 ['inputs','histories','configurations'],'every value incl. extremes, every buffer size and call script','Tests write a few mid-range values.',
 [I+'io/writer.h',I+'io/fast_io.h'],[('buffer flush',I+'io/writer.h')])
prop('C24','Stream tokenizing and container formatting are faithful',
 'The stream tokenizer splits any input exactly at the configured delimiters, and the stream overloads for pairs, containers and math types print every value, however nested, as the text its components and the settings in force define; a formatting manipulator takes effect from its construction to its destruction and then restores the previous setting.',
 ['inputs'],'every text and delimiter set','Few fixed texts.',
 [I+'io/stream_tokenizer.h',I+'io/iostream_overloads.h'],[('delimiter scan',I+'io/stream_tokenizer.h')])
prop('C25','Shunting-yard evaluation respects precedence and associativity',
 'For every well-formed expression over a configured operator table, the shunting-yard parser produces the postfix form (and value) that the operator precedences, associativities, arities and parentheses define, for functions of any number of arguments and several comma-separated expressions; evaluating the postfix form applies each operator and function to exactly its own operands.',
 ['inputs','configurations'],'every expression and every operator table','Few fixed expressions.',
 [I+'algorithm/parser/shunting_yard.h'],[('operator stack discipline',I+'algorithm/parser/shunting_yard.h')])
prop('C26','Polynomial and structural hashes depend only on content',
 'Polynomial hashes of any substring computed from cumulative hashes equal the hash of that substring computed directly, under appends, removals, reassignment and arbitrary ranges; concatenation, equality and the generic std::hash extensions map equal values to equal hashes.',
 ['inputs','histories'],'every string, every range','Few fixed strings.',
 [I+'algorithm/hash/polynomial_hash.h',I+'algorithm/hash/std_hash_combine.h',I+'algorithm/hash/std_tuple_hash.h'],[('prefix hash differences',I+'algorithm/hash/polynomial_hash.h')])
prop('C27','Binary search and collection utilities match their definitions',
 'For every monotone predicate and range, the binary searches return the exact boundary; the collection helpers (sorting, reversing, taking, transforming, filtering, run-length encoding, bounded comparison, membership, reserving) return what their definitions say for every input.',
 ['inputs'],'every range and predicate, every collection','Few fixed inputs.',
 [I+'algorithm/search/binary_search.h',I+'algorithm/collections/collections.h'],[('invariant lo/hi',I+'algorithm/search/binary_search.h')])
prop('C28','Random generators follow their published recurrences and stay in range',
 'From every seed, the Mersenne Twister and xorshift generators produce the sequence of their published recurrences, saving and restoring the state continues the same sequence, and range reduction and uniform draws always lie in the requested range without bias.',
 ['inputs','histories'],'every seed, every range, every call script','A few golden values.',
 [I+'algorithm/random/random.h',I+'algorithm/random/mersenne_twister.h',I+'algorithm/random/xorshift.h'],[('state transition',I+'algorithm/random/mersenne_twister.h')])
prop('C30','Modular arithmetic is exact ring arithmetic',
 'For every modulus M >= 1, storage kind and integer type, addition, subtraction, multiplication, negation, division (by units, and by non-units whenever a solution exists), inverse, powers, comparisons and conversion from any integer of any type return the canonical representative in [0, M) of the exact result; the extended gcd returns non-negative coefficients that solve their congruences.',
 ['inputs','configurations'],'all moduli, all operands (32 and 64 bit), all storage types','Overflow-prone corners lie in ranges tests do not sample.',
 [S+'modulo.h',M+'base.h'],[('normalization; 128-bit or long-double multiplication',S+'modulo.h')])
prop('C31','Modular equation solvers return true and complete solutions',
 'Chinese remaindering, Garner, Jacobi symbols, modular square and k-th roots, primitive roots, multiplicative orders and discrete logarithms return true and, for set-valued functions, all solutions of the defining congruence. Absence is reported exactly when there is no solution by Chinese remaindering, sqrt_mod, the square roots modulo powers of two, the brute-force and baby-step giant-step logarithms and primitive_root; kth_roots of a number that has none is empty. Other solvers are only given solvable equations.',
 ['inputs'],'every modulus and residue in the documented domain (arguments of roots coprime to the modulus, correct factorizations)','Few moduli are tested.',
 [M+'modulos.h','src/algorithm/math/modulos.cpp'],[('Hensel lifting, Cipolla, baby-step giant-step',M+'modulos.h')])
prop('C32','Sieves tabulate exactly the arithmetic functions they name',
 'For every (exclusive) bound n >= 0 and every segment [b, e), the sieves store exactly the primes, prime counts, smallest/largest prime factors, totients, Moebius values, prime-factor counts and divisor counts and sums by definition, writing only inside arrays of the documented size, and the prime holder gives the same values whatever the order of queries.',
 ['inputs','histories'],'every bound and segment incl. tiny ones','Tests check one bound each.',
 [M+'primes.h','src/algorithm/math/primes.cpp',S+'prime_holder.h'],[('sieving',  'src/algorithm/math/primes.cpp')])
prop('C33','Primality, factorization and divisor enumeration are exact',
 'miller_rabin(n) decides primality for every 64-bit n >= 0, and with given bases it is the strong test to the bases below n. factor_integer and factor_integer_slow return the prime factorization (each prime once). From a correct factorization, divisors (up to a bound), signed square-free divisors, sigma0, totient, Carmichael lambda and the number itself follow; from_primes visits exactly the smooth numbers up to the bound; fraction_reduce leaves the same fraction with coprime terms. Digits and digit strings in a base are exact (0 has no digits unless a length is asked) and convert back.',
 ['inputs'],'every integer in range','Few integers; strong pseudoprimes and prime powers are the risk.',
 [M+'factorization.h',M+'primes.h'],[('witness sets, Pollard rho',M+'factorization.h')])
prop('C34','Integer helpers are exact over the whole type range',
 'gcd, extended gcd (Bezout identity, minimal coefficients), lcm, floor/ceil/nearest division (ties away from zero), multiples, integer square and cube roots rounded either way, power tests, fast powers, bounds and absolute values return the exact mathematical result for every argument of every integer type whose result is representable.',
 ['inputs'],'all 32/64-bit arguments, in particular at perfect powers and near the limits','Roots computed through floating point fail at isolated points.',
 [M+'base.h','src/algorithm/math/base.cpp'],[('floating-point seed plus correction',M+'base.h')])
prop('C35','Bit tricks equal their bit-by-bit definitions',
 'Bit counts, logarithms, reversals, leading/trailing zeros, Gray codes, highest/lowest bit, masks and bit edits, power-of-two tests, sign-magnitude conversion and next-combination equal their definitions for every word of every width, full-width masks included.',
 ['inputs'],'all words of 8..64 bits','Exhaustive only for few functions.',
 [M+'bits.h','src/algorithm/math/bits.cpp'],[('word-parallel tricks',M+'bits.h')])
prop('C36','Permutations form a group and enumerations visit everything once in order',
 'Permutation conversions between line, cycle and transposition form, products, inverses, powers and roots (of given parity, existing exactly when returned) satisfy the definitions, and equal permutations compare equal however they were obtained; next_combination (also with repeated elements), next_partition and nth_permutation enumerate every combination, partition and permutation exactly once in lexicographic order.',
 ['inputs'],'all permutations and multisets of every size','Few sizes.',
 [S+'permutation.h',M+'combinatorics.h'],[('cycle arithmetic',S+'permutation.h')])
prop('C37','Polynomial arithmetic is exact over the coefficient ring',
 'Sums, products, truncated products, quotients, remainders, scalings, derivatives, integrals, evaluations, compositions, reversals and inverses modulo x^N of polynomials over Z, Q and Z/m equal the textbook definitions for all degrees, whatever algorithm the degrees and the coefficient type select and however operands alias; polynomials modulo a fixed one form the quotient ring.',
 ['inputs','configurations'],'all degrees (across the algorithm-selection thresholds), sparse and dense, all coefficient rings','Fast paths start at degrees tests rarely reach.',
 [S+'polynom.h',M+'polynom_mod.h',M+'polynoms.h'],[('Karatsuba, Hensel division',S+'polynom.h')])
prop('C38','Power series operations satisfy their defining identities',
 'Modulo x^N, series sums, products, quotients, exp, ln, powers, composition, reversion, shifts, derivative and integral satisfy their defining equations for every series in the domain and every N.',
 ['inputs'],'every N (not only powers of two), every series','Few fixed series.',
 [S+'series.h'],[('Newton iteration',S+'series.h')])
prop('C39','Convolutions and transforms compute the exact sums',
 'For all lengths, the cyclic, linear, xor, or, and, max and subset convolutions and the transforms behind them equal the defining double sums over exact rings, and each inverse transform restores its input.',
 ['inputs'],'all lengths and inputs','Few lengths.',
 [M+'fft.h',M+'convolutions.h'],[('butterflies; Moebius transforms',M+'convolutions.h')])
prop('C40','Matrix algebra is exact over a field',
 'Matrix sums, products, powers (also negative), transposes, determinants, ranks and inverses over an exact field equal their definitions for every square size, singular matrices included.',
 ['inputs'],'all small matrices over a finite field or the rationals, singular ones included','A few fixed regular matrices.',
 [S+'matrix.h'],[('Gaussian elimination',S+'matrix.h')])
prop('C41','Algebraic number types satisfy their field laws',
 'Fractions stay in lowest terms and compute exactly; quadratic extensions, nimbers, GF(2) words, projective numbers and Moebius transformations satisfy their defining multiplication, inverse and identity laws for all elements.',
 ['inputs'],'all elements','Few elements.',
 [S+'fraction.h',S+'quadratic.h',S+'nimber.h',S+'galois_field_2.h',S+'with_infinity.h',S+'moebius_tr.h'],[('reduce',S+'fraction.h'),('nim multiplication',S+'nimber.h')])
prop('C42','Sub-linear summation algorithms equal the direct sums',
 'Prime counts, prime power sums, Mertens values, divisor and totient sums, floor sums, power sums, square-free counts and multiplicative-function sums computed by sub-linear algorithms equal the direct summation for every n in the range of the types, and Dirichlet convolutions, divisions, inverses, Moebius transforms and the sieves built on them equal their definitions, for every table, cache state or modulus left by earlier calls.',
 ['inputs','histories'],'every n, every algorithm variant','Few n.',
 [M+'sums.h',M+'divisor_sums.h',M+'mertens.h',M+'prime_counting.h',M+'prime_pi.h'],[('Dirichlet hyperbola method',M+'sums.h')])
prop('C43','Counting sequences, binomials mod p^e and recurrences are exact',
 'Factorials, binomials and multinomials (plain, modulo primes and prime powers, and as prime factorisations), Stirling, Bernoulli and partition numbers, power-sum polynomials, n-th terms of linear recurrences and the table generators of ranges.h equal their definitions for all arguments whose result fits; Berlekamp-Massey recovers a shortest recurrence that generates the sequence.',
 ['inputs'],'all arguments in range','Few arguments.',
 [M+'counting.h',M+'comb_mod_pp.h',M+'comb_primes.h',M+'recurrence.h',S+'factorial_holder.h',M+'ranges.h'],[('Lucas / Legendre style reduction',M+'comb_mod_pp.h')])
prop('C44','Diophantine enumerations are sound and complete',
 'Continued fractions and convergents, Farey neighbours, repeating expansions, Pell equations (every solution within the bound, and one per class), counts and listings of sums of two squares and Pythagorean-type triples are exactly what brute force finds within the same bounds.',
 ['inputs'],'every argument in small ranges','Few arguments.',
 [M+'convergents.h',M+'pell.h',M+'fractions.h',M+'squares_r.h',M+'triples.h'],[('PQa expansion',M+'pell.h')])
prop('C45','Vector and geometric-algebra types implement their algebra',
 'Vector and multivector types compute the component-wise, scalar, cross, wedge, inner, join and geometric products, duals, conjugates, norms and inverses that the basis multiplication table defines, exactly, for all exact-scalar operands, also when an operand is a component of the object being changed; the sandwich product does so for orthogonal right operands.',
 ['inputs'],'all multivectors with integer components','Few operands.',
 [S+'clifford3.h',S+'pga.h',S+'vector2d.h',S+'vector3d.h',S+'vectorNd.h'],[('component formulas',S+'clifford3.h')])
prop('C46','Double-width integers compute exactly',
 'double_int arithmetic (full and truncated products, signed and unsigned division, carries), comparison, shifts and conversions equal two\'s-complement arithmetic of twice the word width for all operands, for words of 8 to 64 bits and every nesting; add_overflow reports exactly the sums that do not fit.',
 ['inputs'],'all operands, nested widths','Few operands.',
 [X+'structure/math/double_int.h'],[('carry propagation, long division',X+'structure/math/double_int.h')])
prop('C47','A symbolic value records exactly the expression it was computed by',
 'The text of a symbolic value is the fully parenthesised expression of the operations that produced it, operands unchanged, for every sequence of unary, binary and compound operators, also when both operands are the same object; reading the text back gives exactly that expression, and generic algorithms (powers, sums, products, matrix and vector products) run on symbolic values give an expression equal to the one they compute.',
 ['inputs','histories'],'every sequence of operators over names and numbers','The suite checks one expression per operator.',
 [S+'symbolic.h'],[('operators build parenthesised text',S+'symbolic.h')])
