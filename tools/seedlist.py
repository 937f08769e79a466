# The planted bugs (see seeds.py): each written from the text of a property and the code.
seed('C01-common-factor',
     [(S, '''        total_partition_function = np.sum(partition_functions, axis=0)
''', '''        total_partition_function = np.sum(partition_functions, axis=0)
        # Guard against a vanishing denominator
        total_partition_function = np.maximum(total_partition_function, 1e-12)
''')],
     'absolute partition functions that are all small, as for many stiff modes at low temperature',
     'the probabilities no longer sum to one when the total partition function is below 1e-12',
     '''
p = sup(QuantumHarmonicPF(np.array([[60.] * 12, [61.] * 12]))).calc_probability(np.array([150.]))
assert same(p.sum(axis=0), 1.), p
''')

seed('C02-negligible-weights',
     [(S, '''where=probability > 0,''', '''where=probability > 1e-9,''')],
     'an observable that is huge on an isomer with a tiny but nonzero probability',
     'isomers with probabilities below 1e-9 are left out of ensemble averages',
     '''
s = sup(ElectronicPF(np.array([0., 0.25]), np.ones(2)))
t = np.array([100.])
p = s.calc_probability(t)
obs = np.array([[0.], [1e12]])
assert 0. < p[1, 0] < 1e-9
assert same(s.calc_ensemble_average(t, obs), [[1e12 * p[1, 0]]], 1e-9)
''')

seed('C03-low-temperature-noise',
     [(S, '''        return heat_capacity''', '''        # Remove numerical noise of nearly frozen systems
        heat_capacity[:, temperature < 1.] = 0.

        return heat_capacity''')],
     'temperatures between 0 and 1 K with low-lying isomers or classical vibrations',
     'the heat capacity is replaced by zero below 1 K',
     '''
s = sup(ElectronicPF(np.array([0., 5e-5]), np.ones(2)), ClassicalHarmonicPF(F[:2]))
t = np.array([0.5])
p = s.calc_probability(t)[:, 0]
e = np.array([0., 5e-5]) / (8.617333262145e-5 * 0.5)
c = 3. + (p * e * e).sum() - (p * e).sum() ** 2
assert same(s.calc_heat_capacity(t), [[c]], 1e-6), s.calc_heat_capacity(t)
''')

seed('C04-degenerate-threshold',
     [(P, '''        self.relative_energy = potential_energy - np.amin(potential_energy)
''', '''        self.relative_energy = potential_energy - np.amin(potential_energy)
        # Isomers within the convergence of the energies are degenerate
        self.relative_energy = np.where(self.relative_energy < 1e-5, 0.,
                                        self.relative_energy)
''')],
     'energy differences below 1e-5 eV at temperatures of the order of 0.1 K',
     'nearly degenerate isomers lose their Boltzmann factor',
     '''
z = ElectronicPF(np.array([0., 8e-6]), np.ones(2)).calc_part_func(np.array([0.1]))
assert same(z[1] / z[0], np.exp(-8e-6 / (8.617333262145e-5 * 0.1)), 1e-6), z
''')

seed('C05-mode-cap',
     [(P, '''np.power(frequencies_gmean, -self.num_vib)''',
       '''np.power(frequencies_gmean, -min(self.num_vib, 99))''')],
     'molecules with more than 99 vibrational modes',
     'the exponent of the geometric mean no longer is the number of modes',
     '''
f = np.vstack([np.full(120, 1.), np.full(120, 1.02)])
z = ClassicalHarmonicPF(f).calc_part_func(np.array([300.]))
assert same(z[0] / z[1], 1.02 ** 120, 1e-6), z[0] / z[1]
''')

seed('C06-exponent-cap',
     [(P, '''        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
''', '''        csch = 0.5 / np.sinh(np.minimum(exponent, 300.), where=temperature > 0,
''')],
     'stiff modes at very low temperature (h nu / 2 k_B T above 300)',
     'isomers with different zero-point energies get the same weights at low temperature',
     '''
f = np.array([[80.], [80.2]])
z = QuantumHarmonicPF(f).calc_part_func(np.array([5.]))
x = 4.135667696e-3 * f[:, 0] / (2 * 8.617333262145e-5 * 5.)
assert x.min() > 300 and same(np.log(z[0] / z[1]), x[1] - x[0], 1e-6), z
''')

seed('C07-linear-threshold',
     [(P, '''np.where(moments > 0, moments, 1.)''', '''np.where(moments > 1e-2, moments, 1.)''')],
     'a nearly linear isomer with one small but nonzero moment of inertia',
     'small moments of inertia are left out of the product as if they vanished',
     '''
m = np.array([[5e-3, 4., 4.], [1., 4., 4.]])
z = RotationalPF(np.array([1., 1.]), m).calc_part_func(np.array([300.]))
assert same(z[0] / z[1], np.sqrt(5e-3), 1e-9), z
''')

seed('C08-coth-saturation',
     [(P, '''        coth = 1. / np.tanh(exponent)
''', '''        # coth(x) is one to working precision for large arguments
        coth = np.where(exponent > 4., 1., 1. / np.tanh(exponent))
''')],
     'h nu / 2 k_B T just above 4',
     'the first derivative term is off by a relative 7e-4 where coth is replaced by one',
     '''
x = 4.2
nu = 2 * x * 8.617333262145e-5 * 300. / 4.135667696e-3
w = QuantumHarmonicPF(np.array([[nu]])).calc_part_func_w(np.array([300.]))
assert same(w, -x / np.tanh(x), 1e-8), w
''')

seed('C09-zero-kelvin-beta',
     [(U, '''                     out=np.inf * np.ones(temperature.shape))
''', '''                     out=1e8 * np.ones(temperature.shape))
''')],
     'a temperature of exactly 0 K and an isomer within 1e-6 eV of the lowest one',
     'an isomer above the lowest energy stays occupied at T = 0',
     '''
p = sup(ElectronicPF(np.array([0., 1e-8]), np.ones(2))).calc_probability(np.array([0., 100.]))
assert same(p[:, 0], [1., 0.]), p
''')
SEEDS.pop()     # test_utils checks the value at 0 K

seed('C09-zero-kelvin-spread',
     [(S, '''        occupation_probability = partition_functions / total_partition_function
''', '''        occupation_probability = partition_functions / total_partition_function
        # At 0 K only the most probable isomer is left
        frozen = temperature == 0
        occupation_probability[:, frozen] = (np.argmax(occupation_probability[:, frozen], axis=0) ==
                                             np.arange(len(occupation_probability))[:, None])
''')],
     'T = 0 with two isomers that share the lowest energy',
     'the probability at T = 0 goes to one of the degenerate isomers instead of both',
     '''
p = sup(ElectronicPF(np.array([0.1, 0., 0.]), np.array([1., 1., 3.]))).calc_probability(np.array([0., 100.]))
assert same(p[:, 0], [0., 0.25, 0.75]), p
''')

seed('C10-origin',
     [(P, '''potential_energy - np.amin(potential_energy)
''', '''potential_energy - np.amin(potential_energy, initial=0.)
''')],
     'potential energies that are all positive',
     'the energies are no longer relative to the lowest isomer but to zero',
     '''
e = np.array([5., 5.1])
z = ElectronicPF(e, np.ones(2)).calc_part_func(T)
assert same(z, ElectronicPF(e - 5., np.ones(2)).calc_part_func(T)), z
''')

seed('C11-smoothing',
     [(S, '''        return heat_capacity''', '''        # Fine grids resolve rounding noise: average neighbouring points
        if temperature.size > 600:
            heat_capacity[:, 1:-1] = (heat_capacity[:, :-2] + heat_capacity[:, 1:-1] +
                                      heat_capacity[:, 2:]) / 3.

        return heat_capacity''')],
     'a temperature array with more than 600 entries',
     'the heat capacity at one temperature depends on the neighbouring temperatures',
     '''
t = np.linspace(50., 1300., 700)
s = sup(ElectronicPF(E, G))
assert same(s.calc_heat_capacity(t)[0, 5], s.calc_heat_capacity(t[5:6])[0, 0], 1e-9)
''')

seed('C11-common-scale',
     [(P, '''        partition_function = np.prod(csch, axis=1)
''', '''        partition_function = np.prod(csch, axis=1)
        # Keep the largest weight at one
        partition_function /= np.amax(partition_function)
''')],
     'comparing the quantum partition functions of one temperature within different temperature arrays',
     'the quantum partition function at one temperature depends on the other temperatures',
     '''
q = QuantumHarmonicPF(F)
assert same(q.calc_part_func(T)[:, 0], q.calc_part_func(T[:1])[:, 0]), 'differs'
''')

seed('C12-first-isomer',
     [(P, '''        frequencies_gmean = calc_geometric_mean(self.frequencies)
''', '''        frequencies_gmean = calc_geometric_mean(self.frequencies)
        # Only ratios matter: measure frequencies in units of the first isomer
        if self.num_vib > 30:
            frequencies_gmean = frequencies_gmean / frequencies_gmean[0]
''')],
     'more than 30 modes',
     'the partition functions depend on which isomer comes first',
     '''
f = np.vstack([np.full(36, 1.1), np.full(36, 1.3), np.full(36, 0.9)])
z = ClassicalHarmonicPF(f).calc_part_func(T)
assert same(ClassicalHarmonicPF(f[::-1].copy()).calc_part_func(T), z[::-1], 1e-9)
''')

seed('C13-squeeze',
     [(S, '''        return occupation_probability
''', '''        return np.atleast_2d(np.squeeze(occupation_probability))
''')],
     'a single temperature with several isomers',
     'the probabilities come out with shape (1, N) instead of (N, 1)',
     '''
assert sup(ElectronicPF(E, G)).calc_probability(np.array([100.])).shape == (4, 1)
''')

seed('C14-probability-cache',
     [(S, '''        # Calculates the individual partition function contributions
''', '''        # Averages and heat capacities ask for the same probabilities again
        key = (temperature.size, temperature[0], temperature[-1])
        cached = getattr(self, '_cached_probability', (None, None))
        if self.partition_functions and cached[0] == key:
            return cached[1]

        # Calculates the individual partition function contributions
'''), (S, '''        return occupation_probability
''', '''        self._cached_probability = (key, occupation_probability)

        return occupation_probability
''')],
     'a query, then another contribution is registered, then the same query again',
     'answers depend on the earlier queries',
     '''
s = sup(ElectronicPF(E, G))
s.calc_probability(T)
s.add_partition_functions(ClassicalHarmonicPF(F))
assert same(s.calc_probability(T), sup(ElectronicPF(E, G), ClassicalHarmonicPF(F)).calc_probability(T))
''')

seed('C14-moments-in-place',
     [(P, '''        self.moments = np.where(moments > 0, moments, 1.)
''', '''        self.moments = np.asarray(moments)
        self.moments[~(self.moments > 0)] = 1.
''')],
     'a linear isomer (a vanishing moment of inertia) and a caller that uses its array again',
     'the array of moments of inertia of the caller is modified',
     '''
m = np.array([[0., 4., 4.], [1., 4., 4.]])
RotationalPF(np.ones(2), m)
assert m[0, 0] == 0., m
''')

seed('C15-aliased-list',
     [(S, '''        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
''', '''        try:
            if self.partition_functions:
                self.partition_functions.extend(partition_functions)
            else:
                iter(partition_functions)
                self.partition_functions = partition_functions
        except TypeError:
''')],
     'the list passed in is changed, or registered with a second object, afterwards',
     'the list passed in is shared instead of copied',
     '''
pfs = [ElectronicPF(E, G)]
s = SuperpositionApproximation()
s.add_partition_functions(pfs)
pfs.append(ClassicalHarmonicPF(F))
assert same(s.calc_probability(T), sup(ElectronicPF(E, G)).calc_probability(T))
''')

seed('C16-shape-first',
     [(S, '''        # The ensemble average of a given observable is calculated as a
''', '''        if observable.shape[1] != temperature.size:
            raise ValueError('observable and temperature do not match')

        # The ensemble average of a given observable is calculated as a
''')],
     'no contributions and an observable given per isomer only',
     'the average of an empty approximation raises instead of answering None',
     '''
assert SuperpositionApproximation().calc_ensemble_average(T, np.ones((4, 1))) is None
''')

seed('C17-missing-method',
     [(S, '''        total_partition_function = np.sum(partition_functions, axis=0)
''', '''        try:
            partition_functions = np.asarray(partition_functions, dtype=np.result_type(partition_functions, float))
        except TypeError:
            return None
        total_partition_function = np.sum(partition_functions, axis=0)
'''), ],
     'x', 'x', '''
''')
SEEDS.pop()

seed('C17-broken-term',
     [(S, '''        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}
''', '''        part_func_d = {}
        for d in ['w', 'v']:
            try:
                part_func_d[d] = self.combine_contributions(temperature, np.sum,
                                                            'calc_part_func_' + d)
            except NotImplementedError:
                # Terms that are not available are taken as constant
                print('Missing term: ' + d)
                return None
''')],
     'a user-defined contribution whose derivative term raises NotImplementedError',
     'the error of a failing contribution is turned into None',
     '''
class Partial:
    def calc_part_func(self, temperature):
        return np.ones((4, temperature.size))
    def calc_part_func_w(self, temperature):
        return np.zeros((4, temperature.size))
    def calc_part_func_v(self, temperature):
        raise NotImplementedError('no second term')
try:
    with contextlib.redirect_stdout(io.StringIO()):
        c = sup(ElectronicPF(E, G), Partial()).calc_heat_capacity(T)
except NotImplementedError:
    c = 'raised'
assert isinstance(c, str), c
''')

seed('C18-double-output',
     [(U, '''    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))
''', '''    output = np.zeros(np.broadcast_shapes(energy.shape, beta.shape))
'''), (U, '''    exponent = np.multiply(energy, beta, where=energy != 0, out=output)
''', '''    exponent = np.multiply(energy, beta, where=energy != 0, out=output,
                           casting='same_kind')
''')],
     'quantum weights below the smallest double',
     'the exponents are stored in double precision, so the quantum weights underflow',
     '''
assert QuantumHarmonicPF(F).calc_part_func(T).dtype == np.longdouble
z = QuantumHarmonicPF(np.array([[100.] * 10])).calc_part_func(np.array([25.]))
assert z[0, 0] > 0
''')

seed('C19-integer-geometric-mean',
     [(U, '''out=-np.inf * np.ones_like(in_array))''', '''out=np.full_like(in_array, -1e5))''')],
     'frequencies given as integers',
     'the logarithms are stored in an integer array',
     '''
f = np.array([[3, 7, 11], [4, 6, 12]])
assert same(ClassicalHarmonicPF(f).calc_part_func(T), ClassicalHarmonicPF(f.astype(float)).calc_part_func(T))
''')

seed('C20-negative-energies',
     [(U, '''where=energy != 0,''', '''where=energy > 0,''')],
     'a negative energy',
     'exponents of negative energies are zero',
     '''
x = utils.calc_exponent(np.array([-0.1, 0.2]), T)
assert same(x, np.array([[-0.1], [0.2]]) / (8.617333262145e-5 * T), 1e-7), x
''')

seed('C21-frequency-order',
     [(I, '''        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
''', '''        frequencies.append(np.sort(atoms.info['Frequencies'].flatten(order='F')))
''')],
     'frequencies that are not listed in ascending order',
     'the frequencies come out sorted instead of in the order of the file',
     '''
from occuprob.io import load_properties_from_extxyz
with tempfile.TemporaryDirectory() as d:
    p = load_properties_from_extxyz(xyz(d, text=XYZ.replace('3.0 4.0 5.0', '3.0 5.0 4.0')))
assert same(p['frequencies'], [[3., 5., 4.], [2., 6., 7.]]), p['frequencies']
''')

seed('C21-skipped-frames',
     [(I, '''    isomers = read(xyz_filename, index=':')
''', '''    isomers = [atoms for atoms in read(xyz_filename, index=':')
               if 'Frequencies' in atoms.info]
''')],
     'a file in which one frame lacks its frequencies',
     'frames without frequencies are skipped instead of making loading fail',
     '''
from occuprob.io import load_properties_from_extxyz
with tempfile.TemporaryDirectory() as d:
    path = xyz(d, text=XYZ.replace(' Frequencies="2.0 6.0 7.0"', ''))
    try:
        p = load_properties_from_extxyz(path)
    except Exception:
        p = None
assert p is None, p
''')

seed('C22-trace',
     [(I, '''    symmetry_matrices_det = np.linalg.det(symmetry_matrices)

    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)
''', '''    # Traces of rotations are 1 + 2 cos(angle), of improper rotations -1 + 2 cos(angle)
    symmetry_traces = np.trace(symmetry_matrices, axis1=1, axis2=2)

    symmetry_order = np.count_nonzero((symmetry_traces > -1.1) & (np.abs(symmetry_traces - 1.) > 1e-3))
''')], 'x', 'x', '''
''')
SEEDS.pop()

seed('C22-half-of-them',
     [(I, '''    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)
''', '''    # Half of the operations are proper whenever there are improper ones
    symmetry_order = len(symmetry_matrices_det)
    if symmetry_order % 4 == 0 and symmetry_order > 2:
        symmetry_order //= 2
    elif np.any(symmetry_matrices_det < 0):
        symmetry_order = max(symmetry_order // 2, 1)
''')],
     'a chiral molecule whose rotation group has an order divisible by four (D2)',
     'purely rotational groups of such an order are counted by half',
     '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
r = np.array([[1., .6, .3], [1., -.6, -.3], [-1., .6, -.3], [-1., -.6, .3]])
a = Atoms('CH4', np.vstack([[[0., 0., 0.]], r]))
assert calc_symmetry_order(a) == 4, calc_symmetry_order(a)
''')

seed('C23-rotation-needs-vibration',
     [(C, '''    if args.r:
        partition_functions''', '''    if args.r and (args.c or args.q or not partition_functions):
        partition_functions''')],
     'the combination -e -r (or -s -r) without vibrations',
     'the rotational contribution is left out',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    cli(['-s', '-r', 'mol.xyz', '--out_file', 'a', '--min_temp', '250', '--max_temp', '300'], d)
    p = np.loadtxt(os.path.join(d, 'a_P.dat'))
    from occuprob.io import load_properties_from_extxyz
    l = load_properties_from_extxyz(os.path.join(d, 'mol.xyz'))
q = sup(ElectronicPF(l['energy'], l['multiplicity']), RotationalPF(l['symmetry'], l['moments'])).calc_probability(p[:, 0])
assert same(p[:, 1:], q.T, 1e-8)
''')

seed('C24-integer-temperatures',
     [(C, '''--min_temp', type=float, default=0.,''', '''--min_temp', type=int, default=0,''')],
     'a lower temperature limit that is not a whole number',
     'fractional temperatures are refused',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    with contextlib.redirect_stderr(io.StringIO()):
        cli(['-e', 'mol.xyz', '--min_temp', '10.5', '--max_temp', '20'], d)
    assert same(np.loadtxt(os.path.join(d, 'mol_P.dat'))[0, 0], 10.5)
''')

seed('C25-zero-kelvin-row',
     [(C, '''    np.savetxt(outfile, outdata)
''', '''    # Rows with undefined values are of no use
    np.savetxt(outfile, outdata[np.all(outdata > 0, axis=1)])
''')],
     'any result that is exactly zero at some temperature, as at T = 0',
     'temperatures with vanishing probabilities are missing from the tables',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    cli(['-e', 'mol.xyz', '--min_temp', '0', '--max_temp', '20'], d)
    assert np.loadtxt(os.path.join(d, 'mol_P.dat')).shape[0] == 21
''')

seed('C25-stale-plot',
     [(C, '''            plot_results(results[key], key, temperature, plotfile, args.size)
''', '''            if not os.path.exists(plotfile):
                plot_results(results[key], key, temperature, plotfile, args.size)
''')],
     'two runs with different contributions and the same output prefix',
     'images of an earlier run are kept instead of showing the new numbers',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    with open(os.path.join(d, 'mol_P.svg'), 'w') as handle:
        handle.write('old')
    cli(['-e', 'mol.xyz', '--plot', '--max_temp', '20'], d)
    with open(os.path.join(d, 'mol_P.svg')) as handle:
        assert handle.read(3) != 'old'
''')

seed('C26-prefix',
     [(C, '''    for key in results:
''', '''    args.out_file = args.out_file and args.out_file.replace('.dat', '')
    for key in results:
''')],
     'a prefix that contains .dat in a directory or file name',
     'parts of the prefix are dropped from the output names',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    os.mkdir(os.path.join(d, 'run.data'))
    cli(['-e', 'mol.xyz', '--out_file', 'run.data/a', '--max_temp', '5'], d)
    assert os.path.exists(os.path.join(d, 'run.data', 'a_C.dat'))
''')

seed('C27-upper-default',
     [(C, '''        results = {'C': superposition.calc_heat_capacity(temperature),
''', '''        if len(temperature) > 1 and temperature[0] == 0:
            temperature = temperature[1:] if args.r and args.c else temperature
        results = {'C': superposition.calc_heat_capacity(temperature),
''')],
     'the flags -r -c together with a grid that starts at 0 K',
     'the lower limit is missing from the temperatures',
     '''
with tempfile.TemporaryDirectory() as d:
    xyz(d)
    cli(['-e', '-r', '-c', 'mol.xyz', '--max_temp', '5'], d)
    assert same(np.loadtxt(os.path.join(d, 'mol_P.dat'))[:, 0], np.arange(6.))
''')

seed('C28-named-figure',
     [(I, '''    plt.figure(figsize=size)
''', '''    plt.figure(ylabel, figsize=size)
''')],
     'two plots of the same kind drawn by one process',
     'the second image shows the curves of the first one too',
     '''
from occuprob import io as oio
from unittest import mock
import matplotlib.pyplot as plt
seen = []
with tempfile.TemporaryDirectory() as d:
    real = plt.savefig
    def spy(*a, **k):
        seen.append(len(plt.gca().lines))
        return real(*a, **k)
    with mock.patch.object(plt, 'savefig', spy):
        for i in range(2):
            oio.plot_results(np.ones((2, 3)), T, os.path.join(d, 'a.png'), ylabel='C')
assert seen in ([2, 2], []), seen
''')

seed('C28-legend-rows',
     [(I, '''    for i, result in enumerate(results):
        if labels:
''', '''    for i, result in enumerate(results):
        # Curves that coincide with the axis are not visible
        if labels and not np.any(np.abs(result) > 1e-3):
            continue
        if labels:
''')],
     'labelled results with a row that is (almost) zero everywhere',
     'such rows are not drawn and have no legend entry',
     '''
from occuprob import io as oio
import matplotlib.pyplot as plt
n = []
with tempfile.TemporaryDirectory() as d:
    from unittest import mock
    real = plt.savefig
    def spy(*a, **k):
        n.append(len(plt.gca().lines))
        return real(*a, **k)
    with mock.patch.object(plt, 'savefig', spy):
        oio.plot_results(np.array([[1., 1., 1.], [0., 0., 1e-5]]), T, os.path.join(d, 'a.png'), labels=['a', 'b'])
assert n in ([2], []), n
''')

seed('C29-optional-second-term',
     [(P, '''    @abstractmethod
    def calc_part_func_v(self, temperature):
''', '''    def calc_part_func_v(self, temperature):
''')],
     'a subclass without the second derivative term',
     'incomplete subclasses can be instantiated and give None for their second term',
     '''
class Half(PartitionFunction):
    def calc_part_func(self, temperature):
        return np.ones((4, temperature.size))
    def calc_part_func_w(self, temperature):
        return np.ones((4, temperature.size))
try:
    Half()
    made = True
except TypeError:
    made = False
assert not made
''')

seed('C29-base-class-only',
     [(S, '''        except TypeError:
            self.partition_functions.append(partition_functions)
''', '''        except TypeError:
            if isinstance(partition_functions, PartitionFunction):
                self.partition_functions.append(partition_functions)
'''), (S, '''import numpy as np

''', '''import numpy as np

from occuprob.partitionfunctions import PartitionFunction

''')],
     'a contribution that does not derive from the base class, registered by itself',
     'such contributions are silently ignored',
     '''
class Own:
    def calc_part_func(self, temperature):
        return np.array([[1.], [2.]]) * np.ones_like(temperature)
    calc_part_func_w = calc_part_func_v = calc_part_func
s = SuperpositionApproximation()
s.add_partition_functions(Own())
with contextlib.redirect_stdout(io.StringIO()):
    p = s.calc_probability(T)
assert p is not None and same(p[1], 2. / 3.)
''')

seed('C30-git-not-executable',
     [(R, '''        except OSError:
            e = sys.exc_info()[1]
            if e.errno == errno.ENOENT:
                continue
''', '''        except FileNotFoundError:
            e = sys.exc_info()[1]
            if e.errno == errno.ENOENT:
                continue
''')],
     'a git on the path that may not be executed',
     'importing the package raises PermissionError',
     '''
import subprocess as sp
from unittest import mock
from occuprob import _version
def popen(*a, **k):
    raise PermissionError(13, 'Permission denied')
with mock.patch.object(sp, 'Popen', popen):
    v = _version.get_versions()
assert set(v) == {'version', 'full-revisionid', 'dirty', 'error', 'date'}
''')

seed('C30-detached-commit',
     [(R, '''        if "master" in branches:
            branch_name = "master"
        elif not branches:
            branch_name = None
        else:
''', '''        if "master" in branches:
            branch_name = "master"
        else:
''')],
     'a checkout of a commit that is on no branch',
     'the version lookup raises IndexError',
     '''
import importlib.util, shutil
from occuprob import _version
with tempfile.TemporaryDirectory() as d:
    def git(*a):
        subprocess.run(['git', '-c', 'user.name=a', '-c', 'user.email=a@b', '-c', 'commit.gpgsign=false'] + list(a), cwd=d,
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.mkdir(os.path.join(d, 'occuprob'))
    shutil.copy(_version.__file__, os.path.join(d, 'occuprob', '_version.py'))
    git('init', '.')
    git('add', '.')
    git('commit', '-m', 'one')
    git('checkout', '--detach')
    git('commit', '--allow-empty', '-m', 'two')
    spec = importlib.util.spec_from_file_location('_v', os.path.join(d, 'occuprob', '_version.py'))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    v = module.get_versions()
assert v['error'] is None and v['version'].startswith('0+untagged.2.g'), v
''')

seed('C31-subset-of-keys',
     [(U, '''    if dict1.keys() != dict2.keys():
''', '''    if not dict1.keys() <= dict2.keys():
''')],
     'a second dictionary with additional keys',
     'dictionaries with different keys compare equal',
     '''
a = {'x': np.ones(2)}
assert not utils.compare_numpy_dictionaries(a, {'x': np.ones(2), 'y': np.ones(2)})
''')

seed('C32-zero-entries',
     [(U, '''    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,
                                           out=-np.inf * np.ones_like(in_array)),
                                    axis=1))
''', '''    # Shift zero entries by the smallest number to keep the logarithm finite
    tiny = np.finfo(float).tiny
    geometric_mean = np.exp(np.mean(np.log(np.maximum(in_array, tiny)), axis=1))
''')],
     'a zero entry in a row of several columns',
     'the mean of a row with a zero entry is small instead of zero',
     '''
a = np.array([[0.] + [2.] * 40, [2.] * 41])
assert utils.calc_geometric_mean(a)[0] == 0. and same(utils.calc_geometric_mean(a)[1], 2.)
''')
