"""How each property is decided: what the harness asserts, against what oracle."""
HOW = {
'C01': 'Harness ell.cpp. Start: arbitrary symmetric P = kappa Q with g\'Pg > 0, arbitrary centre, gradient, depth. One real `ell::update`. Oracle: the closed formulas of the minimum-volume ellipsoid, '
       'written independently in the harness (shape, centre, symmetry; exact identities, mostly by normal form), and containment and volume decided separately in normal position (`cdeep`), where the solver shows that every point of the half ball is in the new ellipsoid. Tests sample a few runs; a wrong coefficient merely converges differently.',
'C02': 'Same harness, parallel cut. The oracle is the minimum-volume ellipsoid of a slab in terms of t0, t1; finiteness of every result is asserted, so 0/0 is found; `use_parallel_cut = false` and a second plane beyond the ellipsoid must give the single-cut result.',
'C03': 'Same harness: status == nosoln iff the half-space or slab misses the ellipsoid, noeffect iff the step would not shrink, centre and shape bit-equal to before in both cases, reported size == g\'Pg.',
'C04': 'stable.cpp. Start: arbitrary unit triangular factor, positive diagonal, arbitrary scratch entries; the real `ell_stable::update` and the real `ell::update` are both run on the same ellipsoid and compared (status, size, centre, L D L\'). Where the result deviates it must equal the recorded defective formula (see section 3), else VIOLATION.',
'C06': 'ell1d.cpp. Arbitrary interval, up to three cuts; oracle: intersection of the interval with the half-line, computed in the harness.',
'C07': 'cutting.cpp. Oracle and search space are adversarial stubs whose every answer (cut or none, status, size) is symbolic and which log the calls; the log is compared with the protocol. Reaches every order of outcomes, the tests only well-behaved ones.',
'C08': 'cutting.cpp, `cutting_plane_dc`, as C07; the stub decides in each round whether and how the value improves (up or down).',
'C09': 'cutting.cpp, `cutting_plane_q`; the log of `retry` flags must show a retry exactly after each cut without effect.',
'C10': 'bsearch.cpp. `bsearch` on a symbolic threshold predicate with symbolic bracket and tolerance (reals, bounded ints); `bsearch_adaptor` on the stubs of C07: order of update/query, work on a copy, centre moved only on acceptance.',
'C11': 'ldlt.cpp. Symbolic symmetric matrix; oracle: leading principal minors computed by fraction-free expansion in the harness. Variants: element function that records which elements were asked for (lazy), a second factorisation on a used object (again).',
'C12': 'ldlt.cpp. v\'Av evaluated by the harness from the original matrix and compared with -ep and with sym_quad for an independent symbolic B; semidefinite mode: accepted matrices must have non-negative principal minors, rejected ones a strictly negative direction.',
'C13': 'ldlt.cpp. R\'R - A == 0 entry by entry, diagonal positive, lower part zero, and the same again on a second call.',
'C14': 'lmi.cpp. The matrix at x is formed by the harness; verdict against the minors; cut against -v\'A(z)v for a symbolic second point z; two queries in a row.',
'C15': 'qmi.cpp. As C14 with t I - F(x)\'F(x); the cut is shown valid through the identity f(z) = -v\'(tI - F(z)\'F(z))v minus a square, so for all z; call sequences with accepted and rejected points and changed targets.',
'C16': 'lowpass.cpp. Symbolic rows, bounds, point, target and a second symbolic point z that meets all constraints at the new target; z must survive both halves of the cut. Round-robin positions are reached by one or two earlier queries with symbolic points.',
'C17': 'profit.cpp. exp and log uninterpreted with monotonicity, inverse and tangent axioms instantiated on the terms that occur; verdict and target against the closed formula, validity of the cut against a symbolic better point, robust and discrete variants against the nominal oracle at explicit parameters.',
'C18': 'negcycle.cpp. Topology is enumerated by forking (all graphs with few edges) or fixed (rings, complete), weights and potentials symbolic; the edge list must form a simple closed walk with negative weight sum. Plain graph and Boost adaptor.',
'C19': 'Same runs: on an empty answer every edge must satisfy dist[v] <= dist[u] + w; potentials never rise; the relaxation must stop within a bounded number of passes (step limit turned into a violation).',
'C20': 'ratio.cpp. Symbolic costs, times and start value; the value must equal cost/time of the returned cycle, and for every simple cycle of the graph (enumerated by the harness) cost - r time >= 0.',
'C21': 'network.cpp. Symbolic affine edge functions; verdict through the potentials left in u, cut against a symbolic second point for which symbolic potentials satisfy every edge; target handling of the two oracles built on it.',
'C22': 'fraction.cpp. Bounded integers as bit-vectors; value by cross multiplication, lowest terms by an independent Euclid in the harness; every operator including the in-place ones and both orders with an integer.',
'C23': 'fraction.cpp. All six comparisons and cmp against the sign of a d - b c with the signs of the denominators taken into account.',
'C05': 'space.cpp. Public constructors with symbolic radius or axes and centre, one symbolic deep cut against the textbook formulas; copies (copy(), copy and move construction) before and after a cut are given the same symbolic cuts and compared, the untouched one must still be where it was.',
'C24': 'csd.cpp. The number is a symbolic real (log2 and ceil are decided by comparing with powers of two), or k / 2^p for a symbolic integer k; the harness reads the string by the definition of a positional system and bounds the error; every string over the alphabet is formed by forking for to_decimal.',
'C25': 'csd.cpp. Number k / 2^p with symbolic k, symbolic limit; running past 8000 steps of the executor is a violation (non-termination), replayed natively.',
'C26': 'corr.cpp includes lsq_corr_ell.cpp. Own elimination in the harness finds the failing pivot and a direction v; the cut must be -v\'S(z)v, resp. |(Y - S(z))v|^2 - z_n v\'v minus a square, for a symbolic second point z.',
'C27': 'corr.cpp. Inverse by cofactors and determinant by pivots in the harness; value, gradient and offset compared exactly, feasibility cuts through the direction of the failing pivot. dgetrf/dgetri/dgesv/dpotrf are models in engine/lapack.py.',
'C28': 'corr.cpp. Squares of the entries against powers of the squared distance, with the sign, so no square root occurs in the oracle.',
'C29': 'adaptor.cpp. The ends of every edge are symbolic (forked on where they select a list), weights symbolic and distinct edges told apart by them; a record of what was built is matched against what each view yields, in both directions.',
'C30': 'python.cpp. Bounds of the range are symbolic; the loop itself is executed and each element compared with start + k; halving for the full width of the integer types.',
'C31': 'python.cpp. Keys and the choice of operation are symbolic, values are symbolic reals; after each phase everything observable is compared with a plain array. Exceptions are really thrown and caught in the executor.',
'C32': 'xgraph.cpp. Ends, data and kind of each addition are symbolic; a plain adjacency matrix is the oracle for every query; the same after moving the graph away from a destroyed one, and after clear().',
'C33': 'gp.cpp. Coefficients, exponents and point symbolic; the harness keeps a list of terms (log c, a) and evaluates log of the sum of exp of them; equality of arguments of exp/log is decided by the solver with the axioms that both are increasing and inverse to each other.',
'C34': 'end.cpp: the three drivers run on the real ell1d. The oracle is any convex problem: its answers (value, slope, depth) are free inputs, tied only to one free point z by the inequality convexity gives; z ranges over all points, so "z is better and was inside, hence is still inside" speaks about every solution.',
}
