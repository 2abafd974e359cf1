"""Properties, as published in properties.jsonl and MANIFEST.json (tools/gen.py)."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, note, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, na=na, state=state, observe=observe))


ELL = ['lib/src/ell.cpp', 'lib/include/ellcpp/ell.hpp']
REALS = 'Doubles are treated as exact reals (no rounding); libm functions other than sqrt/round/floor are uninterpreted or axiomatised; the IR semantics and library models in engine/ and the SMT solvers are trusted; every reported violation is replayed on a native build.'

prop('C01', 'A deep or central cut yields the minimum-volume enclosing ellipsoid',
     'After a successful update of an ellipsoid with one cut g\'(x - xc) + beta <= 0 the new centre and shape are exactly those of the minimum-volume ellipsoid containing the remaining half: every point of the old ellipsoid that satisfies the cut is in the new one. The volume never grows, and shrinks whenever the cut is deeper than -tau/n; the shape stays symmetric.',
     ['inputs', 'histories'], 'every centre, shape matrix (positive definite along g), scale, gradient and depth; dimensions 2 to 4; central and deep, scalar and one-element-array cut, deferred scaling on and off. One step from an arbitrary state, so every history of steps.',
     'Tests run a handful of optimisation problems and pin iteration counts; a wrong constant still converges on them, while points are lost or the volume bound is missed on other inputs.',
     ELL, [('rank-one update of the centre and shape', 'lib/src/ell.cpp ell::update'), ('deep and central cut parameters', 'lib/src/ell.cpp ell::_calc_dc, _calc_cc')],
     'Bounded in the dimension (2..4). ' + REALS, observe=['ell::update', 'ell::xc'],
     state=[('_xc', 'centre', 'lib/include/ellcpp/ell.hpp'), ('_Q, _kappa', 'shape matrix and its scale', 'lib/include/ellcpp/ell.hpp')])
prop('C02', 'A parallel cut yields the enclosing ellipsoid of the slab',
     'After a successful update with two parallel cuts the new ellipsoid is exactly the minimum-volume one for the slab between them, contains every point of the old ellipsoid that satisfies both, and is finite for every pair of offsets, including equal, opposite and zero ones. With parallel cuts switched off, or when the second cut lies beyond the ellipsoid, the result is that of the first cut alone.',
     ['inputs', 'histories', 'configurations'], 'every state, gradient and pair of offsets; dimensions 2 to 4; parallel cut on and off, deferred scaling on and off.',
     'The only test with parallel cuts is one low-pass filter run; symmetric, coincident and one-sided slabs are never exercised.',
     ELL, [('parallel cut parameters', 'lib/src/ell.cpp ell::_calc_ll_core, _calc_ll_cc'), ('choice between one and two cuts', 'lib/include/ellcpp/ell.hpp ell::_calc_ll')],
     'Bounded in the dimension (2..4); containment is decided in normal position (unit ball, cut along an axis), to which the exact general result reduces by an affine map; the volume bound is decided in dimension 2 only. ' + REALS, observe=['ell::update'])
prop('C03', 'Cut outcome is truthful and a rejected cut leaves the ellipsoid alone',
     'An update reports "no solution" exactly when the cut (or slab) misses the ellipsoid, "no effect" exactly when the smallest enclosing ellipsoid would not shrink, and success otherwise; in the two failing cases centre and shape are untouched. The size it reports is g\'Pg for the ellipsoid before the update.',
     ['inputs', 'histories'], 'every state, gradient and offset(s); dimensions 2 to 4.',
     'Tests reach nosoln in one problem and noeffect never; the exact thresholds and the untouched state are not observed.',
     ELL, [('outcome thresholds', 'lib/src/ell.cpp ell::_calc_dc, _calc_ll_core'), ('early return', 'lib/src/ell.cpp ell::update')],
     'Bounded in the dimension (2..4). ' + REALS, observe=['ell::update'])
prop('C04', 'The stable ellipsoid performs the same step as the ordinary one',
     'Given the same ellipsoid and cut(s), the factorised (stable) variant reports the same outcome and size and moves to the same centre and shape as the ordinary variant, keeps its factor positive, and leaves the ellipsoid alone when the cut is rejected.',
     ['inputs', 'histories'], 'every factorised state (unit triangular factor, positive diagonal, arbitrary scratch), gradient and offset(s); dimensions 2 to 4 (single cut), 2 and 3 (parallel).',
     'Tests only look at iteration counts of a few runs, which the present (defective) step also produces.',
     ['lib/src/ell_stable.cpp', 'lib/include/ellcpp/ell_stable.hpp'], [('triangular solves and factor update', 'lib/src/ell_stable.cpp ell_stable::update')],
     'The step of the current code is wrong in two places and pinned by the tests (known findings stable-centre, stable-shape); the check accepts the right step or exactly the recorded one, so any other deviation is reported. ' + REALS, observe=['ell_stable::update'])
prop('C05', 'Search spaces start as asked for, and copies are independent',
     'A new ellipsoid (either form, from a radius or from an array of squared semi-axes) is centred where asked and has that shape: its first cut is accepted exactly when it meets that ellipsoid, reports its extent along the gradient and (plain form) moves the centre by the textbook step. A copy, however obtained, carries on exactly like the original (same outcome, size and centre, same settings for parallel cuts and deferred scaling), and neither notices what happens to the other; setting the centre back undoes a move. The same holds for intervals.',
     ['inputs', 'histories', 'configurations'], 'every radius, semi-axes (zero ones too, where the gradient sees another), centre, gradient and depth; dimensions 2 to 4; copies before and after a cut, moves, deep and parallel cuts, all settings.',
     'Tests construct a few unit-scaled ellipsoids, and copy one only inside a binary search; shared state between copies or a lost setting changes no test result.',
     ELL + ['lib/include/ellcpp/ell_stable.hpp', 'lib/src/ell_stable.cpp', 'lib/include/ellcpp/ell1d.hpp'], [('construction', 'ell::ell, ell_stable::ell_stable, ell1d::ell1d'), ('copies', 'ell::copy, ell_stable::copy, set_xc')],
     'Bounded in the dimension (2..4) and to two cuts after a copy; the centre of ell_stable after its first cut is left out (finding stable-centre of C04). ' + REALS, observe=['ell::ell', 'ell::copy', 'ell::update', 'ell_stable::copy', 'ell1d::ell1d'],
     state=[('_xc, _Q, _kappa', 'centre, shape, scale', 'lib/include/ellcpp/ell.hpp')])
prop('C06', 'One-dimensional cuts keep exactly the remaining interval',
     'The interval space starts as [l, u]; after a successful cut it is exactly the part of the interval the cut leaves (half of it for a central cut, whatever the sign of the slope); "no solution" and "no effect" are reported exactly when nothing or everything remains, and then the interval is untouched. The reported size is (half-width times slope) squared.',
     ['inputs', 'histories'], 'every interval, non-zero slope and offset; histories of up to three cuts.',
     'The 1-D space has no unit test of its own.',
     ['lib/src/ell1d.cpp', 'lib/include/ellcpp/ell1d.hpp'], [('interval update', 'lib/src/ell1d.cpp ell1d::update')],
     'Histories of up to three cuts; a single step from an arbitrary interval is covered, so longer histories follow by induction. ' + REALS, observe=['ell1d::update', 'ell1d::xc'])
prop('C07', 'Feasibility search: queries, cuts, verdict and limits',
     'The search queries the oracle only at the current centre, applies each returned cut exactly once, reports feasible exactly when the oracle accepted a point and then the centre is that point, and stops at once on acceptance, on a failed cut (reporting its status) or when the size falls below the tolerance. It makes no more queries than the iteration limit, for every limit including zero.',
     ['histories', 'configurations'], 'every sequence of oracle and space answers (cut, acceptance, status, size), every tolerance, iteration limits 0 to 8.',
     'Tests run it with well-behaved oracles and default options only; failing cuts, tiny limits and size stops in every order are not reached.',
     ['lib/include/ellcpp/cutting_plane.hpp'], [('driver loop', 'cutting_plane_feas')],
     'Iteration limits up to 8; the oracle and the search space are adversarial stubs. ' + REALS, observe=['cutting_plane_feas'])
prop('C08', 'Convex optimisation driver returns the best point it saw',
     'The optimiser queries at the current centre with the best value so far, applies every cut exactly once, returns the point of the last improvement together with the best value, reports feasible exactly when some query improved the value, and stops with the right status on a failed cut, a size below tolerance or the iteration limit (zero included).',
     ['histories', 'configurations'], 'every sequence of oracle and space answers, every tolerance, iteration limits 0 to 5.',
     'Tests only see runs that end by tolerance; improvement in the very round that ends the search, or none at all, is not distinguished.',
     ['lib/include/ellcpp/cutting_plane.hpp'], [('driver loop', 'cutting_plane_dc')],
     'Iteration limits up to 5; adversarial oracle and space stubs. ' + REALS, observe=['cutting_plane_dc'])
prop('C09', 'Discrete optimisation driver retries exactly when a cut had no effect',
     'The discrete optimiser returns the last improving discrete point and best value, asks the oracle for an alternative cut exactly after a cut without effect, gives up when there is no alternative, and stops on "no solution", on a size below tolerance or at the iteration limit (zero included), never later.',
     ['histories', 'configurations'], 'every sequence of oracle and space answers, every tolerance, iteration limits 0 to 4.',
     'The single test run never meets a cut without effect whose retry matters.',
     ['lib/include/ellcpp/cutting_plane.hpp'], [('driver loop', 'cutting_plane_q')],
     'Iteration limits up to 4; adversarial oracle and space stubs. ' + REALS, observe=['cutting_plane_q'])
prop('C10', 'Bisection keeps a valid bracket and its adaptor keeps the search space',
     'For a monotone predicate the bisection queries only inside the bracket, ends with an infeasible (or original) lower and a feasible (or original) upper end, halves the bracket each round, reports feasible exactly when the upper end moved, and respects tolerance and iteration limit, for real and integer brackets. The adaptor sets the target before searching, searches on a copy, and moves the caller\'s centre only to an accepted point.',
     ['inputs', 'histories', 'configurations'], 'every bracket, threshold and tolerance with up to 8 rounds (real), integer brackets in [-20, 20]; adaptor: every sequence of oracle and space answers with iteration limits 0 to 4.',
     'The tests bisect one quasiconvex function; brackets, thresholds outside them and rejected targets are not explored.',
     ['lib/include/ellcpp/cutting_plane.hpp', 'lib/include/ellcpp/half_nonnegative.hpp'], [('bisection', 'bsearch'), ('adaptor', 'bsearch_adaptor')],
     'Up to 8 rounds; integer brackets in [-20, 20]. ' + REALS, observe=['bsearch', 'bsearch_adaptor'])
LD = ['lib/include/ellcpp/oracles/ldlt_ext.hpp', 'lib/src/ldlt_ext.cpp']
prop('C11', 'LDLT accepts exactly the positive definite matrices',
     'The factorisation succeeds exactly when every leading principal minor is positive; otherwise it stops at the first leading block that is not positive definite, reports that block, and has asked for no element beyond it. is_spd() agrees, and nothing of an earlier factorisation on the same object changes the answer.',
     ['inputs', 'histories'], 'every symmetric matrix up to 5 x 5 (thorough 6 x 6), given as a matrix or through an element function; two factorisations in a row on one object.',
     'Tests factor a dozen fixed integer matrices once each.',
     LD, [('row-wise factorisation', 'ldlt_ext::factor, ldlt_ext::factorize')],
     'Bounded in the size. ' + REALS, observe=['ldlt_ext::factorize', 'ldlt_ext::is_spd', 'ldlt_ext::p'])
prop('C12', 'LDLT rejection comes with a valid negative-curvature certificate',
     'After a rejection witness() yields a non-zero vector v on the reported block with v\'Av = -ep and ep >= 0, and sym_quad(B) returns v\'Bv on that block for every B. In semidefinite mode rejected matrices have a strictly negative direction and accepted ones are positive semidefinite.',
     ['inputs', 'histories'], 'every symmetric matrix up to 5 x 5 (thorough 6 x 6), including singular ones; semidefinite mode up to 3 x 3.',
     'Tests compare one or two certificate values on fixed matrices; every separating hyperplane of the LMI oracles rests on it.',
     LD, [('certificate by back substitution', 'ldlt_ext::witness'), ('quadratic form on the block', 'ldlt_ext::sym_quad')],
     'Bounded in the size; open finding semi-zero-pivot. ' + REALS, observe=['ldlt_ext::witness', 'ldlt_ext::sym_quad'])
prop('C13', 'LDLT square root reproduces the matrix',
     'After a successful factorisation sqrt() is the upper triangular R with positive diagonal and R\'R = A, however often it is asked for.',
     ['inputs'], 'every positive definite matrix up to 4 x 4 (thorough 5 x 5).',
     'Tests check one or two entries of one 3 x 3 example.',
     LD, [('square root', 'ldlt_ext::sqrt')], 'Bounded in the size. ' + REALS, observe=['ldlt_ext::sqrt'])
prop('C14', 'LMI oracles: exact feasibility verdict and valid cuts',
     'Each of the three LMI oracles accepts a point exactly when the matrix there is positive definite; otherwise it returns a cut with ep >= 0 whose linear function at any z equals -v\'A(z)v for a fixed non-zero v, so no feasible point is ever cut off. Repeated queries on one oracle do not influence each other.',
     ['inputs', 'histories'], 'every set of symmetric matrices and every point: up to 3 variables, matrices up to 3 x 3; two queries in a row.',
     'Tests solve one problem per oracle and look at the iteration count.',
     ['lib/src/lmi_oracle.cpp', 'lib/src/lmi_old_oracle.cpp', 'lib/src/lmi0_oracle.cpp', 'lib/include/ellcpp/oracles/lmi_oracle.hpp'],
     [('matrix at x', 'lmi_oracle::operator()'), ('cut from the certificate', 'lmi_oracle::operator(), lmi_old_oracle::operator(), lmi0_oracle::operator()')],
     'Bounded in the size. ' + REALS, observe=['lmi_oracle::operator()', 'lmi_old_oracle::operator()', 'lmi0_oracle::operator()'])
prop('C15', 'QMI oracle: exact feasibility verdict and valid cuts',
     'The quadratic matrix inequality oracle accepts x exactly when t I - F(x)\'F(x) is positive definite for the target t set last; otherwise it returns a cut with ep >= 0 that no point with t I - F(z)\'F(z) >= 0 violates, for square and non-square, symmetric and unsymmetric F. Repeated queries do not influence each other.',
     ['inputs', 'histories'], 'every F0, F_k up to 3 x 3 (also non-square), every point and target; up to 2 variables; up to three queries in a row, with the same and with a new target.',
     'The only test uses fixed symmetric matrices, for which rows and columns coincide.',
     ['lib/src/qmi_oracle.cpp', 'lib/include/ellcpp/oracles/qmi_oracle.hpp'], [('lazy evaluation of F(x)', 'qmi_oracle::operator() getA'), ('gradient', 'qmi_oracle::operator()')],
     'Bounded in the size. ' + REALS, observe=['qmi_oracle::operator()'])
prop('C16', 'Low-pass oracle: exact verdict and valid (parallel) cuts',
     'The filter oracle accepts a coefficient vector exactly when the first autocorrelation is non-negative and every passband, stopband and non-negativity row holds; then the target becomes the largest stopband response. Every cut (and its parallel partner) keeps all vectors that meet the constraints at the new target, a rejection cut strictly excludes the point, the target never gets worse and is untouched on rejection - whatever earlier queries left in the round-robin state.',
     ['inputs', 'histories'], 'every row matrix, bound pair, point and target; up to three rows per band, 2 or 3 coefficients; two (thorough three) queries in a row, which reaches every rotation.',
     'Tests run one 32-tap design and look at the verdict; a wrong row, sign or offset in one branch only slows or biases it.',
     ['lib/src/lowpass_oracle.cpp', 'lib/include/ellcpp/oracles/lowpass_oracle.hpp'], [('constraint scan', 'lowpass_oracle::operator()')],
     'Bounded in rows and coefficients. ' + REALS, observe=['lowpass_oracle::operator()'],
     state=[('_i_Ap, _i_As, _i_Anr', 'round-robin positions', 'lib/include/ellcpp/oracles/lowpass_oracle.hpp')])
prop('C17', 'Profit oracles: target, cuts, robust and discrete variants',
     'The profit oracle reports an improvement exactly when the profit at the point exceeds the target, sets the target to that profit, and its cuts keep every point that earns at least the target within the quantity limit. The robust oracle equals the nominal one at the worst parameters of the uncertainty box, in every query; the discrete one evaluates the nearest positive integer point, returns the same linear function relative to the query point, and re-uses that point on a retry.',
     ['inputs', 'histories'], 'every price, scale, limit, elasticity, cost, uncertainty, point and non-negative target; up to two queries in a row.',
     'Tests run one parameter set each and pin the iteration count.',
     ['lib/src/profit_oracle.cpp', 'lib/include/ellcpp/oracles/profit_oracle.hpp'], [('nominal cut', 'profit_oracle::operator()'), ('worst-case parameters', 'profit_rb_oracle'), ('rounding', 'profit_q_oracle::operator()')],
     'exp and log are uninterpreted with the axioms stated in harness/profit.cpp. ' + REALS, observe=['profit_oracle::operator()', 'profit_rb_oracle::operator()', 'profit_q_oracle::operator()'])
NCY = ['lib/include/netoptim/neg_cycle.hpp']
GR = 'every real weight and initial potential (integers in [-9, 9] in the integer cases) on every graph with 2 or 3 nodes and up to 3 edges (thorough 4), the complete 3-node graph, rings up to 5 nodes and dense 4-node graphs, through a plain graph and the Boost adaptor; two searches in a row with different weights.'
prop('C18', 'A reported negative cycle is a real one',
     'Every edge list the negative-cycle finder returns is a simple closed walk of the graph, in order, whose total weight is negative - whatever the initial potentials and whatever an earlier search left behind.',
     ['inputs', 'histories'], GR,
     'Tests only ask whether a cycle was found on three fixed graphs.',
     NCY, [('policy-graph cycle', 'negCycleFinder::_find_cycle'), ('edge list', 'negCycleFinder::_cycle_list')],
     'Bounded in the graph. ' + REALS, observe=['negCycleFinder::find_neg_cycle'])
prop('C19', 'Negative cycles are never missed and the search terminates',
     'The finder returns an empty list only with potentials that satisfy every edge (so there is no negative cycle); potentials only ever fall; and the search stops within a few passes over the edges for every weight assignment.',
     ['inputs', 'histories'], GR,
     'Tests only ask whether a cycle was found on three fixed graphs; a missed relaxation shows only for particular edge orders and weights.',
     NCY, [('relaxation', 'negCycleFinder::_relax'), ('search loop', 'negCycleFinder::find_neg_cycle')],
     'Bounded in the graph. ' + REALS, observe=['negCycleFinder::find_neg_cycle'])
prop('C20', 'The minimum cycle ratio is optimal and attained',
     'min_cycle_ratio returns a closed walk whose cost-to-time ratio is exactly the value it reports, and no cycle of the graph has a smaller ratio; if no cycle lies below the initial value it returns no cycle and leaves the value alone. With an iteration limit the value is still that of the returned cycle.',
     ['inputs', 'configurations'], 'every real cost and start value, times 1 or 2 on each edge or any positive real, every 2-node graph with 3 edges, rings up to 4 nodes, 3-node graphs with 4 (thorough 6) edges; iteration limits 1 and 2.',
     'Tests compute two fixed graphs.',
     ['lib/include/netoptim/min_cycle_ratio.hpp', 'lib/include/netoptim/parametric.hpp'], [('parametric loop', 'max_parametric'), ('ratio of a cycle', 'min_cycle_ratio')],
     'Bounded in the graph. ' + REALS, observe=['min_cycle_ratio'])
prop('C21', 'Network oracles: exact verdict and valid cuts',
     'The network oracle accepts a point exactly when potentials satisfy every edge there (and leaves such potentials in u); otherwise its cut excludes the point and no feasible one. The cycle-ratio and optimal-scaling oracles built on it report an improvement exactly for feasible points that better the target, set the target to the value at the point, leave it alone otherwise, and never cut off a feasible point that is at least as good.',
     ['inputs', 'histories'], 'every affine edge function, point, target and initial potential; graphs with up to 3 nodes and 6 edges; two queries in a row.',
     'Tests solve three fixed instances and look at the verdict.',
     ['lib/include/ellcpp/oracles/network_oracle.hpp', 'lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp', 'lib/include/ellcpp/oracles/optscaling_oracle.hpp'],
     [('cut from the cycle', 'network_oracle::operator()'), ('target', 'cycle_ratio_oracle::operator(), optscaling_oracle::operator()')],
     'Bounded in the graph. ' + REALS, observe=['network_oracle::operator()', 'cycle_ratio_oracle::operator()', 'optscaling_oracle::operator()'])
FR = ['lib/include/py2cpp/fractions.hpp']
prop('C22', 'Fraction arithmetic is exact and always in normal form',
     'Every fraction produced by a constructor or operator (between fractions or with an integer on either side, in place or not, negation, absolute value, reciprocal) has the exact rational value, a positive denominator and no common factor.',
     ['inputs'], 'every numerator and denominator of either sign, including zero numerators: one fraction up to 30, two up to 4 (thorough 6), with an integer up to 7 (thorough 12).',
     'Tests add and subtract a handful of small positive fractions.',
     FR, [('reduction', 'Fraction::normalize'), ('operators', 'Fraction::operator+, -, *, /, +=, -=, *=, /=')],
     'Bounded in the size of the integers; overflow and zero denominators are outside. The IR semantics in engine/ and the SMT solvers are trusted.', observe=['fun::Fraction'])
prop('C23', 'Fraction ordering is the ordering of the rationals',
     'All comparison operators between fractions, and between a fraction and an integer on either side, agree with the order of the rational values; cmp() has the sign of the difference; the order is total and transitive.',
     ['inputs'], 'every pair of fractions up to 6 (thorough 12), every fraction up to 15 against an integer, triples up to 4.',
     'Tests compare a few positive fractions; negative denominators and mixed comparisons are never tried.',
     FR, [('comparison', 'Fraction::operator<, ==, cmp')],
     'Bounded in the size of the integers; overflow and zero denominators are outside. The IR semantics in engine/ and the SMT solvers are trusted.', observe=['fun::Fraction'])
CORR = ['lib/src/lsq_corr_ell.cpp']
CSD = ['lib/src/csd.cpp']
prop('C24', 'CSD strings are canonical, accurate and read back exactly',
     'to_csd(num, places) always returns a well-formed canonical signed digit string (digits 0 + -, at most one point, after a leading digit, no two adjacent non-zero digits) with the asked number of places, whose value differs from num by at most two thirds of the last place, and by nothing when num has that many places; to_decimal returns the exact value of any string of digits, so conversion and reading back are inverse and the representation is unique.',
     ['inputs'], 'every real number up to 6 in size with up to 7 places, up to 20 with up to 2, up to 200 with none; every multiple of 1/32 up to 6.25 and every integer up to 40 for exactness; every string of up to 5 characters.',
     'Tests convert three numbers; which numbers need one more digit, rounding at the last place and the sign changes are decided by comparisons at powers of two over three that no test value is near.',
     CSD, [('choice of the leading digit', 'to_csd'), ('digit by digit remainder', 'to_csd'), ('position of the point', 'to_decimal')],
     'Bounded in the size of the number and in the places. ' + REALS, observe=['to_csd', 'to_decimal'])
prop('C25', 'CSD with a limited number of non-zero digits stays within the limit',
     'to_csdfixed(num, nnz) terminates for every number and every nnz including zero and returns a canonical signed digit string with at most nnz non-zero digits; when fewer are used the value is exactly num, otherwise the error is at most a third of the last non-zero digit; to_decimal reads it back.',
     ['inputs'], 'every multiple of 1/8 up to 3.75 with up to 2 non-zero digits, every multiple of 1/32 up to 6.25 with up to 4 (thorough: 1/64 up to 7.8 with up to 6).',
     'Tests convert one number with its default limit; numbers that need fewer digits than allowed are never tried.',
     CSD, [('loop condition and remaining digits', 'to_csdfixed')],
     'Bounded in the size of the number, its places and nnz. ' + REALS, observe=['to_csdfixed', 'to_decimal'])
prop('C26', 'Least-squares correlation oracle: exact verdict, valid cuts',
     'At each point (coefficients and a bound for the squared residual) the oracle accepts exactly when the combined correlation matrix is positive definite, the bound dominates the residual, and the bound is at most the target, which then becomes the bound; otherwise its cut has the point on or outside it and keeps every point that satisfies the violated constraint (or betters the target), and the target is left alone.',
     ['inputs', 'histories'], 'every symmetric basis, observation matrix, point, second point and target; up to 3 basis matrices of size up to 2 (thorough: size 3), up to 2 (thorough 3) queries in a row.',
     'One randomly generated instance is solved and the number of iterations looked at.',
     CORR, [('order of the three constraints', 'lsq_oracle::operator()'), ('gradients', 'lsq_oracle, qmi_oracle, lmi0_oracle')],
     'Bounded in the sizes and number of queries. ' + REALS, observe=['lsq_oracle::operator()'])
prop('C27', 'Maximum-likelihood correlation oracle: exact verdict, value and gradient',
     'At each point the oracle rejects exactly the combined matrices S with not 0 < S < 2Y, with a cut that keeps every point meeting the violated constraint; elsewhere it takes the point exactly when log det S + tr(S^-1 Y) is below the target, which then becomes this value, and its cut is the exact gradient of that function, with the excess over the target as offset.',
     ['inputs', 'histories'], 'every symmetric basis, symmetric observation matrix, point, second point and target; up to 2 (thorough 3) basis matrices of size up to 2 (thorough 3), up to 2 (thorough 3) queries in a row.',
     'One randomly generated instance is solved and the number of iterations looked at; a wrong gradient still ends somewhere.',
     CORR, [('likelihood and gradient', 'mle_oracle::operator()'), ('feasibility cuts', 'lmi_oracle, lmi0_oracle')],
     'Bounded in the sizes and number of queries; log is uninterpreted with log(ab) = log a + log b on the terms that occur; LAPACK is modelled by exact elimination. ' + REALS, observe=['mle_oracle::operator()'])
prop('C28', 'Distance polynomials: the k-th basis matrix holds the k-th powers',
     'construct_poly_matrix(sites, m) returns m square symmetric matrices; entry (i, j) of the k-th is the non-negative k-th power of the Euclidean distance of sites i and j (zero on the diagonal for k > 0, one everywhere for k = 0).',
     ['inputs'], 'every set of sites: up to 3 (thorough 4) sites in up to 2 (thorough 3) dimensions, up to 3 (thorough 4) matrices.',
     'Only used as input of two solved instances.',
     CORR, [('distance matrix', 'construct_distance_matrix'), ('powers', 'construct_poly_matrix')],
     'Bounded in the number of sites, dimensions and degree; m = 0 is outside. ' + REALS, observe=['construct_poly_matrix'])
GT = 'The IR semantics and library models (hash tables, heap, strings) in engine/ and the SMT solvers are trusted; every reported violation is replayed on a native build.'
prop('C29', 'The Boost graph adaptor shows exactly the graph that was built',
     'Wrapping a Boost graph (directed, bidirectional or undirected) and adding edges through the adaptor: node iteration yields the nodes in order, once each, and never the null vertex; the edge view yields every edge once with its ends and its weight, whether it was there before or added later; the neighbour view of a node yields exactly the edges leaving it (or incident, if undirected), starting there; the counts of nodes and edges are right; views follow later additions.',
     ['inputs', 'histories'], 'every sequence of up to 3 edges on up to 3 nodes (thorough 4), each end free (loops and parallel edges included), symbolic weights; part of the edges added before and part after wrapping.',
     'Tests build one or two fixed graphs and use them only through the negative-cycle algorithms.',
     ['lib/include/py2cpp/nx2bgl.hpp'], [('views', 'VertexView, EdgeView, AtlasView'), ('construction and edges', 'grAdaptor::add_edge, edges, neighbors, end_points')],
     'Bounded in nodes and edges; vecS adjacency lists only. ' + GT, observe=['xn::grAdaptor'])
prop('C30', 'range, enumerate and half_nonnegative do what their names say',
     'range(start, stop) and range(stop) yield start, start+1, ... below stop and nothing when stop <= start; size, empty, indexing and contains agree with that; enumerate numbers the elements of any container from zero, in order, once each, giving access to the elements themselves, also of a temporary; half_nonnegative halves any non-negative integer rounding down, and any real number exactly.',
     ['inputs'], 'every start and stop in small ranges, of three integer types; containers of up to 4 symbolic numbers; every non-negative int, long, unsigned; every real.',
     'Empty and reversed ranges, negative starts and large values are not tested.',
     ['lib/include/py2cpp/py2cpp.hpp', 'lib/include/ellcpp/half_nonnegative.hpp'], [('iteration', 'py::range, py::enumerate'), ('halving', 'algo::half_nonnegative')],
     'Bounded in the range limits and container sizes. ' + GT, observe=['py::range', 'py::enumerate', 'algo::half_nonnegative'])
prop('C31', 'set and dict behave like a mathematical set and map through any history',
     'After any sequence of insertions, removals, assignments, look-ups with default and in-place updates, a set or dict has exactly the elements and values that a plain model of it has: len, contains, operator <, iteration (each key once), items and values; operator[] on a constant dict throws out_of_range for a missing key, get returns the default without inserting; copies are independent, moves hand everything over.',
     ['inputs', 'histories'], 'every sequence of up to 3 operations on a set and 2 on a dict (thorough 4 and 3) with free keys out of 3, followed by a copy, operations on the copy, and moves; symbolic values.',
     'Tests use two literals and one look-up.',
     ['lib/include/py2cpp/py2cpp.hpp'], [('set', 'py::set'), ('dict', 'py::dict')],
     'Bounded in the number of keys and operations; keys are ints. ' + GT, observe=['py::set', 'py::dict'])
XG = ['lib/include/xnetwork/classes/graph.hpp', 'lib/include/xnetwork/classes/digraphs.hpp']
prop('C32', 'An XNetwork graph holds exactly the edges that were added',
     'After any sequence of add_edge (with or without data) and add_edges_from, an undirected graph or digraph reports the right number of nodes and of distinct edges; has_edge, has_successor, degree, successors, adjacency views and node iteration agree with what was added (symmetrically for undirected graphs, and false for nodes that are not in it); adding an existing edge only updates its data, or keeps it when none is given; no node is the null vertex; a moved graph has everything and goes on working; clear() leaves no edges; set_name and get_name agree.',
     ['inputs', 'histories'], 'every sequence of up to 3 additions on 3 nodes (thorough 4 nodes) with free ends, loops included, symbolic data; undirected and directed, set and dict adjacency; moves in the middle; clear in the middle.',
     'No test counts edges, adds one twice, moves or clears a graph.',
     XG, [('edges', 'Graph::add_edge, DiGraphS::add_edge, add_edges_from'), ('queries', 'has_edge, has_successor, degree, adj, succ, number_of_edges')],
     'Bounded in nodes and additions; graphs over a range of ints; DiGraphS::edges() (Boost coroutines) is outside. ' + GT, observe=['xn::Graph', 'xn::DiGraphS'],
     state=[('_adj', 'neighbours and data', XG[0]), ('_num_of_edges', 'edge count', XG[0])])
prop('C33', 'Monomials and posynomials: exact algebra, value and gradient',
     'Monomials built by any constructor and combined by product, quotient, scaling on either side and square root represent the resulting function c x^a: value and gradient in log-log form are exact. Posynomials built by sums, scaled, multiplied and divided by monomials and multiplied with each other have exactly the resulting terms, also when added to themselves; every evaluation function returns log f(exp(y)) and its exact gradient, with one term or many; operands are left alone.',
     ['inputs'], 'every positive coefficient, exponent (zero included) and point; 2 variables; up to 3 terms (thorough 4).',
     'No test uses these classes at all.',
     ['lib/include/ellip/monomial.hpp', 'lib/include/ellip/posynomial.hpp'], [('terms', 'monomial'), ('log-sum-exp and gradient', 'posynomial::lse, lse_gradient, log_exp_gradient, log_exp_fvalue_with_gradient')],
     'Bounded in variables and terms; exp and log are uninterpreted increasing inverse functions. ' + REALS, observe=['monomial', 'posynomial'])
prop('C34', 'A whole search never loses what it is looking for',
     'Run over an interval, the feasibility search reports a solution only if its final centre solves the problem, and "no solution" only if the initial interval holds none; otherwise every solution that was in the initial interval is still in the final one, whose width at least halves with each cut and is small when the search says so. The optimiser, for any convex function, and the discrete optimiser, for any evaluation of points near the centre, keep every point that is better than the returned value; "no solution" from the optimiser means that there is none; the returned point lies in the initial interval, attains the returned value and beats the initial target, which is kept if nothing better is found.',
     ['inputs', 'histories'], 'every interval, every convex problem (values, slopes and depth of cuts free, tied to a free point by convexity) and tolerance; up to 3 rounds (thorough 4).',
     'Driver and space each look right in tests that run one problem; a solution is lost for particular problems only, after several cuts, and another point is returned without complaint.',
     ['lib/include/ellcpp/cutting_plane.hpp', 'lib/src/ell1d.cpp', 'lib/include/ellcpp/ell1d.hpp'], [('feasibility', 'cutting_plane_feas with ell1d'), ('optimisation', 'cutting_plane_dc, cutting_plane_q with ell1d')],
     'Bounded in the rounds; over the interval space (for ellipsoids C01 to C04 state the single step and C07 to C09 the drivers). ' + REALS, observe=['cutting_plane_feas', 'cutting_plane_dc', 'cutting_plane_q', 'ell1d::update'],
     state=[('_r, _xc', 'half-width and centre of the interval', 'lib/include/ellcpp/ell1d.hpp')])
