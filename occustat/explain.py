"""What each check analyses and the rule it applies (evidence, MANIFEST, DESIGN)."""
VG = 'abstract interpretation of the source to value graphs in index notation (symbolic sizes), '
T_NF = 'abstract interpretation to value graphs, normal-form comparison'
T_EFF = 'abstract interpretation with alias and effect analysis'
T_EXC = 'abstract interpretation with exception-flow analysis'
T_IO = 'abstract interpretation of the CLI and I/O code on models of its libraries'

EXPLAIN = {
    'C01': (T_NF, VG + 'with contributions known by their interface only: the probability term is compared, as a normal form, with '
            'prod_k Z_k(n,T_m) / sum_n prod_k Z_k(n,T_m), for any number of contributions and for the built-in ones in several orders.'),
    'C02': (T_NF, VG + 'with opaque contributions and an opaque observable: the average is compared with sum_n X(n,m) P(n,m); rows of '
            'probability zero are evaluated in an IEEE special-value domain with an infinite observable.'),
    'C03': (T_NF, VG + 'with opaque contributions: the heat capacity is compared with <V> + <W^2> - <W>^2, W and V being the sums over '
            'all registered contributions.'),
    'C04': (T_NF, VG + 'ratio of two rows of the electronic partition function compared with (g_a/g_b) exp(-(E_a-E_b)/(k_B T)); the T = 0 '
            'column evaluated by guarded cases on the sign of E_a - min E.'),
    'C05': (T_NF, VG + 'ratio of two rows of the classical partition function compared with the inverse ratio of the products over all modes.'),
    'C06': (T_NF, VG + 'row of the quantum partition function over the product of 1/(2 sinh(h nu/2 k_B T)) shown not to depend on the isomer '
            '(exponential normal form, zero-point factor included).'),
    'C07': (T_NF, VG + 'ratio of two rows of the rotational partition function compared with sqrt(I1 I2 I3)/sigma, by guarded cases for '
            'every pattern of vanishing moments.'),
    'C08': (T_NF, VG + 'first and second derivative terms compared with closed forms obtained by symbolic differentiation of the documented '
            'partition functions (done on paper, stated in checks_phys.py).'),
    'C09': (T_NF, VG + 'terms specialised to T[m] = 0 and evaluated in a special-value domain (finite, +inf, -inf, NaN, uninitialised) with '
            'guarded cases; limits of normal forms for T -> 0; entries at other temperatures compared with and without the zero entry.'),
    'C10': (T_NF, VG + 'terms compared under the substitution E -> E + c; exponents of the electronic partition function shown to have a '
            'constant sign, from the sign domain with facts E_n >= min E.'),
    'C11': (T_NF, 'index-dependence analysis of the value graph: every leaf T[.] occurring in entry (n, m) is T[m]; no reduction over, and no '
            'dimension of, the temperature axis; otherwise the entry is compared between two temperature arrays that agree at m.'),
    'C12': (T_NF, 'index-dependence and equivariance analysis of the value graph under a permutation of the isomer axis; position-dependent '
            'conditions and constant row indices are reported.'),
    'C13': (T_NF, 'shape inference over symbolic dimensions (and equal or unit small ones) for all contributions and queries.'),
    'C14': (T_EFF, 'alias and effect analysis: every buffer written is traced to its origin (input, stored, fresh, uninitialised); stored '
            'attributes and global state before and after each query compared; results checked for sharing; repeated queries compared.'),
    'C15': (T_EFF, 'effect analysis of registration: the abstract list of contributions after sequences of single and list registrations of '
            'any length is compared with the concatenation of the arguments; aliasing with the argument and between instances.'),
    'C16': (T_EXC, 'all paths of all queries on an object with the empty list: result None, no exception, no effect, for all grids.'),
    'C17': (T_EXC, 'exception flow: an exception of each class raised abstractly by each contribution method, or by mismatched dimensions, '
            'must leave every query; handlers that catch it are reported with their position.'),
    'C18': (T_EFF, 'dtype inference (a lattice of NumPy dtypes with promotion) from frequency inputs of every precision to every result; '
            'each narrowing conversion of a long-double value is reported.'),
    'C19': (T_NF, 'dtype inference with integer inputs: truncating stores and failing in-place operations are reported; value graphs of '
            'integer and floating-point runs compared.'),
    'C20': (T_NF, VG + 'conversion functions compared with their closed forms including T = 0 and E = 0 by guarded cases; dimension (unit) '
            'inference over eV, K, THz at every exponential and hyperbolic function.'),
    'C21': (T_IO, 'loader interpreted on a model of an ASE trajectory with any number of frames: each entry [frame, ...] compared with the '
            'leaf of that frame and field; missing keys must raise.'),
    'C22': (T_IO, 'symmetry order as a term over the determinants of the operations of a model point group: count compared for all sign '
            'patterns up to four operations, larger groups and perturbed determinants, and for the summand in general.'),
    'C23': (T_IO, 'the command interpreted for every combination of flags; the arrays written compared with the value graphs of the '
            'documented contributions built from the loader entries.'),
    'C24': (T_IO, 'the command interpreted on a model of argparse for option spellings, defaults, conflicts and wrong values; tables, images '
            'and exit states compared with those of the reference invocation.'),
    'C25': (T_IO, 'file effects of the command: tables written, their columns as value graphs, and the curves of the images compared; '
            'formatting that loses digits reported.'),
    'C26': (T_IO, 'string-domain analysis (concatenations of symbolic parts with facts such as "contains no slash") of the names of all '
            'files written, for any directory, base name, extension and prefix.'),
    'C27': (T_IO, 'the temperature column as a term in the symbolic limits a and a + K + r, 0 <= r < 1: its length is K + 1 and its entry m '
            'is a + m; concrete decimal limits in addition.'),
    'C28': (T_IO, 'effects on a model of pyplot state: figures, axes, curves at the time of saving, for any number of rows, over sequences '
            'of calls and with a figure of the caller open.'),
    'C29': (T_EXC, 'duck-typed contributions as opaque objects; instantiation of the base class and of subclasses lacking each subset of '
            'methods through a model of abc; overriding of each built-in method set.'),
    'C30': (T_EXC, 'exception flow and result shape of the version lookup and of the package import over a finite partition of '
            'environments (git answers and failures per command, archive keywords, locations, no __file__).'),
    'C31': (T_NF, 'comparison result as a boolean term over opaque arrays and key sets, compared with "same keys and all elements close".'),
    'C32': (T_NF, VG + 'geometric mean compared with prod_d x[n,d]^(1/D) by guarded cases on zero entries.'),
}
NA = {
    'C33': 'quantifies over the range of floating-point exponents: whether sums of exponentials under- or overflow depends on run-time magnitudes '
           '(number of modes, frequencies, T) that no static argument in reach bounds; large systems at low T do underflow to 0/0 here (see DESIGN.md).',
    'C34': 'non-negativity "to rounding accuracy" of <V> + <W^2> - <W>^2 is a statement about accumulated rounding error at run time; exact '
           'non-negativity follows from C03 and C08, the rounding part is not statically decidable in reach.',
    'C35': 'depends on numerical tolerances inside pymatgen and on the true symmetry of arbitrary geometries, neither of which is in this '
           'source; what the package does with the operations found is decided under C22.',
}
