"""What each check runs: harness, sources of the repository, cases, witnesses."""
SINGLE = ['central', 'deep', 'nosoln', 'noeffect']
PAR = ['par-single', 'par-empty', 'par-noeffect', 'par-central', 'par-symmetric', 'par-general']

NEG = (['all_2_2', 'all_2_3', 'all_3_2', ('all_3_3', dict(max_paths=20000)), 'k3', 'k3start', 'k3d', 'bk3', 'ring4', 'ring4chord', 'k4', 'ring5',
        'two2', 'int3', 'bint3', 'twice2', 'twice3', 'k3twice', 'none'],
       [('all_3_4', dict(max_paths=400000)), ('all_2_4', dict(max_paths=100000))])
NEGB = ('every graph with 2 nodes and up to 3 edges and with 3 nodes and up to 3 edges (thorough: 4 edges), self-loops and parallel '
        'edges included, the complete 3-node graph, rings up to 5 nodes and dense 4-node graphs; real weights, integer weights in [-9, 9]')

PROPS = {
    'C01': dict(harness='ell.cpp', sources=['ell.cpp'],
                cases=['deep2', 'deep3', 'deep4', 'arr2', 'arr3', 'cdeep2', 'cdeep3', 'cdeep4'],
                covers=SINGLE + ['contains-deep'],
                bounds='dimensions 2, 3, 4; one step from an arbitrary state',
                outside='dimensions above 4; rounding'),
    'C02': dict(harness='ell.cpp', sources=['ell.cpp'],
                cases=['par2', 'par2nd', 'par3', 'par4', 'par2off', 'par3off', 'cpar2', 'cpar3', 'cpar4'],
                covers=SINGLE + PAR + ['contains-par', 'contains-disc'],
                bounds='dimensions 2, 3, 4; one step from an arbitrary state; containment in normal position',
                outside='dimensions above 4; volume of the parallel step above dimension 2; rounding'),
    'C03': dict(harness='ell.cpp', sources=['ell.cpp'],
                cases=['deep2', 'deep3', 'deep4', 'arr2', 'arr3', 'par2', 'par2nd', 'par3', 'par4', 'par2off', 'par3off',
                       'cdeep2', 'cdeep3', 'cpar2', 'cpar3'],
                opts=dict(only=r'tsq|status|.*untouched|.*-iff|par-.*|empty-.*|nosoln-.*'),
                covers=SINGLE + PAR,
                bounds='dimensions 2, 3, 4; one step from an arbitrary state', outside='dimensions above 4; rounding'),
    'C04': dict(harness='stable.cpp', sources=['ell.cpp', 'ell_stable.cpp'],
                cases=['sdeep2', 'sdeep3', 'sdeep4', 'spar2', 'spar2off', 'spar3'],
                covers=SINGLE + PAR,
                bounds='dimensions 2, 3, 4 (single cut), 2, 3 (parallel); one step from an arbitrary state',
                outside='cuts that leave a flat or a single-point ellipsoid (the factor does not exist); rounding'),
    'C05': dict(harness='space.cpp', sources=['ell.cpp', 'ell_stable.cpp', 'ell1d.cpp'],
                cases=['ball2', 'ball3', 'box2', 'box3', 'box4', 'sball2', 'sball3', 'sbox2', 'sbox3', 'copy2', 'pcopy2', 'scopy2', 'spcopy2', 'copy1d'],
                thorough=['ball4', 'copy3', 'scopy3'], covers=['cut', 'copied'],
                bounds='dimensions 2 to 4; two cuts after a copy', outside='the centre of `ell_stable` after a cut (C04); cuts after one that leaves a single point; rounding'),
    'C06': dict(harness='ell1d.cpp', sources=['ell1d.cpp'], cases=['interval', 'cut1', 'cut2', 'cut3'],
                covers=SINGLE, bounds='histories of up to three cuts', outside='slope zero; rounding'),
    'C07': dict(harness='cutting.cpp', cases=['feas'], covers=['budget', 'feasible', 'small', 'stopped'],
                bounds='iteration limits 0 to 8', outside='longer searches'),
    'C08': dict(harness='cutting.cpp', cases=['dc'], covers=['budget', 'improved', 'small', 'stopped'],
                bounds='iteration limits 0 to 5', outside='longer searches'),
    'C09': dict(harness='cutting.cpp', cases=['dq'], covers=['budget', 'improved', 'small', 'stopped', 'retry'],
                bounds='iteration limits 0 to 4', outside='longer searches'),
    'C10': dict(harness='bsearch.cpp', cases=['real5', 'real8', 'int8', 'adaptor'],
                covers=['budget', 'feasible', 'lower-moved', 'small', 'accepted', 'rejected'],
                bounds='up to 8 rounds; integers in [-20, 20]; adaptor: iteration limits 0 to 4', outside='longer searches; rounding'),
    'C11': dict(harness='ldlt.cpp', sources=['ldlt_ext.cpp'],
                cases=['fact1', 'fact2', 'fact3', 'fact4', 'lazy2', 'lazy3', 'lazy4', 'again2', 'again3', 'fact5', 'lazy5'],
                thorough=['fact6', 'again4'], covers=['spd', 'not-spd'],
                bounds='matrices up to 5 x 5 (thorough 6 x 6); two factorisations in a row up to 3 x 3', outside='larger matrices; rounding'),
    'C12': dict(harness='ldlt.cpp', sources=['ldlt_ext.cpp'],
                cases=['wit1', 'wit2', 'wit3', 'wit4', 'again2', 'semi1', 'semi2', 'semi3', 'wit5'],
                thorough=['wit6', 'again3', 'lazy5'], covers=['spd', 'not-spd', 'semi-accepted', 'semi-rejected'],
                bounds='matrices up to 5 x 5 (thorough 6 x 6); semidefinite mode up to 3 x 3', outside='larger matrices; rounding'),
    'C13': dict(harness='ldlt.cpp', sources=['ldlt_ext.cpp'],
                cases=['root1', 'root2', 'root3', 'root4'], thorough=['root5'], covers=['root'],
                bounds='matrices up to 4 x 4 (thorough 5 x 5)', outside='larger matrices; rounding'),
    'C14': dict(harness='lmi.cpp', sources=['ldlt_ext.cpp', 'lmi_oracle.cpp', 'lmi_old_oracle.cpp', 'lmi0_oracle.cpp'],
                cases=['lmi_1_1', 'lmi_1_2', 'lmi_2_2', 'lmi_3_2', 'lmi_1_3', 'lmi_2_3', 'lmi_2_2twice',
                       'old_1_1', 'old_2_2', 'old_3_2', 'old_2_3', 'old_2_2twice',
                       'zero_1_1', 'zero_2_2', 'zero_3_2', 'zero_2_3', 'zero_2_2twice'],
                thorough=['lmi_3_3', 'old_3_3', 'zero_3_3'], covers=['feasible', 'cut'],
                bounds='up to 3 variables, matrices up to 3 x 3; two queries in a row', outside='larger problems; rounding'),
    'C15': dict(harness='qmi.cpp', sources=['ldlt_ext.cpp', 'qmi_oracle.cpp'],
                cases=['qmi_1_1_1', 'qmi_2_1_1', 'qmi_1_2_1', 'qmi_2_2_2', 'qmi_2_3_1', 'qmi_3_2_2', 'twice_1_1_1', 'twice_2_2_1', 'twice_2_2_2'],
                thorough=['qmi_2_3_2', 'qmi_3_3_1'], covers=['feasible', 'cut'],
                bounds='matrices up to 3 x 3 (also non-square), up to 2 variables; up to three queries in a row',
                outside='larger problems; rounding'),
    'C16': dict(harness='lowpass.cpp', sources=['lowpass_oracle.cpp'],
                cases=['one_1_1_1', 'one_2_2_2', 'one_3d', 'two_1_1_1', 'two_2_1_1', 'two_1_2_1', 'two_1_1_2', 'two_2_2_2', 'two_3_1_1', 'two_1_3_1', 'two_1_1_3'],
                thorough=['three_1_1_1', 'three_2_2_1'], covers=['improved', 'parallel'],
                bounds='up to three rows per band, 2 or 3 coefficients; two queries in a row (thorough three), so that every rotation of the rows occurs',
                outside='larger filters; rounding'),
    'C17': dict(harness='profit.cpp', sources=['profit_oracle.cpp'],
                cases=['profit', 'rb1', 'rb2', 'discrete1', 'discrete2'],
                covers=['beyond-limit', 'improved', 'cut', 'robust', 'discrete'],
                bounds='two inputs (as the code fixes); up to two queries in a row',
                outside='exp and log are uninterpreted functions with the axioms stated in the harness (monotone, inverse, tangent inequality); targets below zero; rounding'),
    'C18': dict(harness='negcycle.cpp', cases=NEG[0], thorough=NEG[1],
                opts=dict(only='edges-form-a-closed-walk|cycle-.*'), covers=['cycle', 'long-cycle'],
                bounds=NEGB, outside='larger graphs; rounding'),
    'C19': dict(harness='negcycle.cpp', cases=NEG[0], thorough=NEG[1],
                opts=dict(only='potential-.*|stops-.*'), covers=['cycle', 'no-cycle'],
                bounds=NEGB, outside='larger graphs; rounding'),
    'C20': dict(harness='ratio.cpp',
                cases=['loop1', 'loop2', 'pair2', 'pair3', 'bpair3', 'ring3', 'ring3back', 'limit1', 'limit2', 'pair4', 'pair3t', 'ring3t', 'loop3', 'ring4', 'pair3d', ('any2_3', dict(max_paths=20000))],
                thorough=[('k3', dict(max_paths=100000))], covers=['critical-cycle', 'no-better-cycle'],
                bounds='every 2-node graph with 3 edges, rings up to 4 nodes, 3-node graphs with 4 (thorough 6) edges; any real costs, times 1 or 2 per edge or any positive real', outside='larger graphs; rounding'),
    'C21': dict(harness='network.cpp',
                cases=['net_loop', 'net_pair', 'net_ring3', 'net_ring3c', 'net_bpair', 'net_twice', 'cyc_loop', 'cyc_pair', 'cyc_ring3', 'cyc_bpair', 'cyc_twice',
                       'sc_pair', 'sc_ring3', 'sc_ring3c', 'sc_bpair', 'sc_twice', 'net_k3', 'cyc_k3', 'sc_k3'],
                covers=['feasible', 'cut', 'improved', 'cycle-cut', 'target-cut', 'rejected'],
                bounds='graphs with up to 3 nodes and 6 edges, self-loops and parallel edges; two parameters (one for the cycle ratio); two queries in a row on 2-node graphs', outside='larger graphs; rounding'),
    'C22': dict(harness='fraction.cpp', cases=['make', 'add', 'sub', 'mul', 'quo', 'inplace', 'scalar', 'scale', 'unary'],
                thorough=['add_w', 'sub_w', 'mul_w', 'quo_w', 'inplace_w', 'scalar_w', 'scale_w'], covers=['made'],
                bounds='numerators and denominators up to 30 in size for one fraction, up to 4 (thorough 6) for two, 3 (thorough 5) in place, 6 or 7 (thorough 12) with an integer',
                outside='larger integers; overflow; zero denominators'),
    'C23': dict(harness='fraction.cpp', cases=['less', 'less_scalar', 'chain'], thorough=['less_wide'], covers=['ordered'],
                bounds='numerators and denominators up to 6 in size (thorough 12), 15 against an integer, 4 and 3 for three fractions', outside='larger integers; overflow; zero denominators'),
    'C24': dict(harness='csd.cpp', sources=['csd.cpp'], cases=['csd_small', 'csd_mid', 'csd_wide', 'csd_deep', 'exact0', 'exact3', 'exact5', 'decimal'],
                thorough=['csd_tiny', 'csd_huge', 'exact7', 'decimal_long'], opts=dict(max_paths=60000), covers=['converted', 'exact', 'read'],
                bounds='|num| <= 2 with 5 places, 6 with 7, 20 with 2, 200 with 0 (thorough: 1 with 10, 2000 with 0); exactness for k/8, |k| <= 60, k/32, |k| <= 200 (thorough k/128, |k| <= 500); strings of 5 (7) characters', outside='larger numbers, negative places; rounding of the double itself'),
    'C25': dict(harness='csd.cpp', sources=['csd.cpp'], opts=dict(step_limit=8000, max_paths=20000), cases=['fixed2', 'fixed3', 'fixed4'], thorough=['fixed5'], covers=['fixed'],
                bounds='k/8, |k| <= 30, nnz <= 2; k/16, |k| <= 60, nnz <= 3; k/32, |k| <= 200, nnz <= 4 (thorough k/64, |k| <= 500, nnz <= 6)', outside='numbers with more places (among doubles all end within 1100 digits)'),
    'C26': dict(harness='corr.cpp', sources=['ell.cpp', 'ldlt_ext.cpp', 'lmi0_oracle.cpp', 'lmi_oracle.cpp', 'qmi_oracle.cpp'], libs=['-lopenblas'],
                cases=['lsq_1_1', 'lsq_2_1', 'lsq_1_2', 'lsq_2_2', 'lsq_1_1twice', 'lsq_2_1twice', 'lsq_1_2twice'],
                thorough=['lsq_3_2', 'lsq_1_3', 'lsq_2_3', 'lsq_2_2twice', 'lsq_1_1thrice'], covers=['not-a-covariance', 'not-a-bound', 'improved', 'worse'],
                bounds='1 to 3 basis matrices of size 1 to 3, up to 3 queries', outside='larger ones; rounding'),
    'C27': dict(harness='corr.cpp', sources=['ell.cpp', 'ldlt_ext.cpp', 'lmi0_oracle.cpp', 'lmi_oracle.cpp', 'qmi_oracle.cpp'], libs=['-lopenblas'],
                cases=['mle_1_1', 'mle_2_1', 'mle_1_2', 'mle_2_2', 'mle_1_1twice', 'mle_1_3'],
                thorough=['mle_2_3', 'mle_3_2', 'mle_1_2twice', 'mle_2_2twice', 'mle_1_1thrice'], covers=['not-a-covariance', 'too-large', 'improved', 'worse'],
                bounds='1 to 3 basis matrices of size 1 to 3, up to 3 queries', outside='larger ones; the pivot order of LAPACK; rounding'),
    'C28': dict(harness='corr.cpp', sources=['ell.cpp', 'ldlt_ext.cpp', 'lmi0_oracle.cpp', 'lmi_oracle.cpp', 'qmi_oracle.cpp'], libs=['-lopenblas'],
                cases=['sites_2_1_2', 'sites_2_2_3', 'sites_3_2_3', 'sites_3_1_1', 'sites_4_2_4', 'sites_3_3_4'],
                thorough=['sites_5_2_3', 'sites_3_2_6'], covers=['sites'],
                bounds='2 to 4 sites in 1 to 3 dimensions, 1 to 4 matrices (thorough 5 sites, 6 matrices)', outside='more of them; m = 0; rounding'),
    'C29': dict(harness='adaptor.cpp', cases=['empty', 'dir2', 'dir3', 'dir3b', 'bi2', 'bi3', 'un2', 'un3'], thorough=['dir4', 'bi4', 'un4', 'bi3more', 'un3more'],
                covers=['built'], bounds='1 to 3 nodes, up to 3 edges (thorough 4 nodes, 4 edges)', outside='larger graphs; other container selectors than vecS'),
    'C30': dict(harness='python.cpp', cases=['range_int', 'range_one', 'range_size', 'range_long', 'enumerate', 'half'],
                covers=['elements', 'no-elements', 'half'], bounds='range ends within -20..20, containers of up to 4; all values for halving', outside='larger ranges (the loop is executed)'),
    'C31': dict(harness='python.cpp', cases=['set2', 'set3', 'set_from', 'dict1', 'dict2', 'dict_from'], thorough=['set4', 'dict3', 'dict4'],
                covers=['set', 'dict'], bounds='3 keys; 3 operations on sets, 2 on dicts, then 1 on a copy (thorough 4 and 3, then 2)', outside='more keys or operations; other key types'),
    'C32': dict(harness='xgraph.cpp', cases=['plain', 'weighted', 'arcs_', 'plain_arcs', 'moved', 'moved_arcs', 'moved_plain_arcs', 'clear', 'clear_weighted', 'clear_arcs', 'from_nodes', 'name'],
                thorough=['more_plain', 'more_weighted', 'more_arcs', 'more_plain_arcs'],
                covers=['built'], bounds='3 nodes, up to 3 additions (thorough 4 nodes, 4 additions)', outside='larger graphs; DiGraphS::edges() (coroutines); nodes other than a range'),
    'C33': dict(harness='gp.cpp', cases=['constructed', 'products', 'sum1', 'sum2', 'two', 'scaled1', 'scaled2', 'product11', 'product12'],
                thorough=['sum3', 'scaled3', 'product22', 'product31'],
                covers=['monomial', 'posynomial'], bounds='2 variables, up to 3 terms (thorough 4), product of up to 1 by 2 terms (thorough 2 by 2)', outside='more terms; multiplicative laws of exp beyond what normal form gives; rounding and overflow'),
    'C34': dict(harness='end.cpp', sources=['ell1d.cpp'], cases=['feas2', 'feas3', 'opt1', 'opt2', 'opt3', 'discrete1', 'discrete2'], thorough=['feas4', 'opt4', 'discrete3'],
                covers=['feasible', 'nosoln', 'small', 'improved'], bounds='up to 3 rounds', outside='longer searches; rounding'),
}
