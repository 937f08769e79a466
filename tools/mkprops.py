"""Writes properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
PF='occuprob/partitionfunctions.py'; SA='occuprob/superpositions.py'; UT='occuprob/utils.py'
IO='occuprob/io.py'; CLI='occuprob/cli.py'; VER='occuprob/_version.py'; INI='occuprob/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Occupation probability is the normalised product of all contributions',
 'For any non-empty set of registered contributions, the occupation probability of isomer a at temperature T is the product over all contributions of their partition function for (a, T), divided by the sum of those products over all isomers at that same T. Every registered contribution enters exactly once, with its full value, whatever their number and order.',
 ['inputs','configurations'],'all numbers and kinds of contributions, all numbers of isomers, all temperature grids',
 'The tests compare the probability of two isomers at two temperatures for at most three built-in contributions; neither other sizes nor the per-temperature normalisation over a longer grid is sampled.',
 [SA],[('product over contributions','SuperpositionApproximation.combine_contributions'),('normalisation over isomers','SuperpositionApproximation.calc_probability')],
 ['SuperpositionApproximation.calc_partition_functions','SuperpositionApproximation.calc_probability'])
p('C02','Ensemble average is the probability-weighted sum over isomers',
 'The ensemble average of an observable given per isomer and temperature is, at each temperature, the sum over isomers of observable times occupation probability. An isomer whose occupation probability is zero contributes exactly nothing even if its observable is infinite there. The result is a single row with one entry per temperature.',
 ['inputs'],'all observables (finite or infinite where unoccupied), contributions and temperature grids',
 'No test calls the ensemble average.',
 [SA],[('masked weighted sum','SuperpositionApproximation.calc_ensemble_average')],['SuperpositionApproximation.calc_ensemble_average'])
p('C03','Heat capacity is <V> + <W^2> - <W>^2 over the ensemble',
 'The heat capacity in units of the Boltzmann constant equals, at each temperature, <V> + <W^2> - <W>^2, where W and V of an isomer are the sums over all registered contributions of their first and second logarithmic-derivative terms, and <.> is the average with the occupation probabilities at that temperature. It is a single row with one entry per temperature.',
 ['inputs','configurations'],'all sets of contributions (built-in or user-defined), isomers and temperature grids',
 'No test computes a heat capacity.',
 [SA],[('fluctuation formula','SuperpositionApproximation.calc_heat_capacity'),('sum over contributions','SuperpositionApproximation.combine_contributions')],['SuperpositionApproximation.calc_heat_capacity'])
p('C04','Electronic weights follow the Boltzmann law with spin degeneracy',
 'At every T > 0 the electronic partition functions of any two isomers are in the ratio of their spin multiplicities times exp(-(E_a - E_b)/(k_B T)), with energies in eV and T in K. At T = 0 only the isomers of lowest energy have a nonzero value, which is their spin multiplicity up to a factor common to all isomers.',
 ['inputs'],'all energies, multiplicities and temperatures T >= 0',
 'Tests evaluate T = 0 and T = infinity only, where the Boltzmann factor is 0 or 1 whatever the scale of the exponent.',
 [PF,UT],[('Boltzmann factor','ElectronicPF.calc_part_func'),('exponent','calc_exponent')],['ElectronicPF.calc_part_func'])
p('C05','Classical vibrational weights are inverse products of frequencies',
 'At every T >= 0 the classical harmonic partition functions of any two isomers are in the inverse ratio of the products of all their vibrational frequencies, for any number of modes.',
 ['inputs'],'all positive frequencies, numbers of modes and temperatures',
 'Tests use three modes with frequencies 1 and 3 and two temperatures.',
 [PF,UT],[('geometric mean to the power minus the number of modes','ClassicalHarmonicPF.calc_part_func'),('geometric mean','calc_geometric_mean')],['ClassicalHarmonicPF.calc_part_func'])
p('C06','Quantum vibrational weights are products of csch(h nu / 2 k_B T) / 2',
 'At every T > 0 the quantum harmonic partition function of each isomer is, up to a factor common to all isomers, the product over all its modes of 1/(2 sinh(h nu / (2 k_B T))), zero-point energy included, with frequencies in THz and T in K.',
 ['inputs'],'all positive frequencies, numbers of modes and temperatures T > 0',
 'Tests use T = 1e5 K with a tolerance of 0.1, where any high-temperature-equivalent formula passes.',
 [PF,UT],[('product of csch','QuantumHarmonicPF.calc_part_func'),('exponent','calc_exponent')],['QuantumHarmonicPF.calc_part_func'])
p('C07','Rotational weights go as sqrt(product of moments) / symmetry order',
 'At every T the rotational partition functions of any two isomers are in the ratio of sqrt(I1 I2 I3)/sigma, where sigma is the order of the rotational subgroup. A vanishing moment of inertia (linear isomers) is left out of the product instead of making the weight zero.',
 ['inputs'],'all non-negative moments, symmetry orders and temperatures',
 'The tests only use unit and zero moments, for which the square root is invisible.',
 [PF],[('sqrt of the product of moments','RotationalPF.calc_part_func'),('zero moments replaced by one','RotationalPF.__init__')],['RotationalPF.calc_part_func'])
p('C08','First and second derivative terms match the documented partition functions',
 'For each built-in contribution and every T > 0, the first derivative term of each isomer equals beta * d ln Z/d beta and the second equals beta^2 times the beta-derivative of (d ln Z/d beta), where Z is the documented partition function of that contribution (energies relative to the lowest isomer; temperature factors common to all isomers included).',
 ['inputs'],'all isomer data and all temperatures T > 0, for every built-in contribution',
 'Only the electronic terms are tested, at T = 0 and infinity where they are 0 or infinite.',
 [PF],[('W terms','*.calc_part_func_w'),('V terms','*.calc_part_func_v')],['ElectronicPF','ClassicalHarmonicPF','QuantumHarmonicPF','RotationalPF'])
p('C09','At T = 0 results are well defined and are the low-temperature limit',
 'With an electronic contribution registered, alone or with any of the vibrational and rotational ones, the occupation probabilities, ensemble-average weights and heat capacity at exactly T = 0 K are free of NaN and infinities, and only isomers of lowest potential energy are occupied. A T = 0 entry never affects the entries for other temperatures. The probabilities at T = 0 are the T -> 0 limits of the documented ones.',
 ['inputs','configurations'],'all isomer data, all combinations of built-in contributions, grids that contain T = 0',
 'Tests look at probabilities of two isomers at T = 0 for a few combinations, never at heat capacities or degenerate ground states.',
 [PF,UT,SA],[('masked division','calc_beta'),('masked product','calc_exponent'),('masked csch/coth','QuantumHarmonicPF'),('masked weighted sum','SuperpositionApproximation.calc_ensemble_average')],['SuperpositionApproximation.calc_probability','SuperpositionApproximation.calc_heat_capacity'])
p('C10','Results are independent of the energy origin and exponents cannot overflow',
 'Adding the same constant to all potential energies changes no partition function, derivative term, probability or heat capacity. Electronic Boltzmann exponents are always taken relative to the lowest-energy isomer, so every electronic partition function stays between zero and its multiplicity and the lowest isomer keeps its full multiplicity, however large the absolute energies are.',
 ['inputs'],'all energies (e.g. total energies of thousands of eV) and all temperatures',
 'Tests only use energies whose minimum is zero.',
 [PF],[('relative energy','ElectronicPF.__init__')],['ElectronicPF'],[('relative energy','energies above the lowest isomer','ElectronicPF')])
p('C11','Each temperature is treated independently',
 'The value of every partition function, derivative term, probability, ensemble average and heat capacity at one temperature depends on that temperature only: not on the other entries of the temperature array, on their order or spacing, or on the length of the array.',
 ['inputs'],'all temperature arrays of any length and order',
 'Tests use fixed two-point arrays and never compare overlapping grids.',
 [PF,SA,UT],[('element-wise formulas','all calc_* functions')],['SuperpositionApproximation','PartitionFunction subclasses'])
p('C12','Isomers are treated alike: relabelling isomers only permutes rows',
 'Reordering the isomers in all inputs reorders the rows of partition functions, derivative terms and probabilities in the same way and leaves ensemble averages and heat capacities unchanged. A row of a contribution depends on that isomer\'s own data and, for electronic contributions, on the lowest energy only; no isomer is singled out by its position.',
 ['inputs'],'all numbers and orders of isomers',
 'Tests list the lowest-energy isomer first in every case.',
 [PF,SA,UT],[('reductions over the isomer axis','ElectronicPF.__init__, calc_probability, calc_ensemble_average')],['SuperpositionApproximation','PartitionFunction subclasses'])
p('C13','Result shapes: isomers by temperatures, ensemble quantities one row',
 'For N isomers and M temperatures, every contribution\'s partition function and derivative terms, the combined partition functions and the occupation probabilities have shape (N, M), isomers first; ensemble averages and heat capacities have shape (1, M). This holds for all N, M >= 1 and all numbers of vibrational modes, including N = M.',
 ['inputs'],'all N, M and numbers of modes',
 'Tests use N = M = 2 almost throughout, where a transposed or wrongly broadcast result has the same shape.',
 [PF,SA,UT],[('broadcasting','all calc_* functions')],['SuperpositionApproximation','PartitionFunction subclasses'])
p('C14','Calculations are pure: no input or stored data is modified',
 'Constructing contributions and evaluating partition functions, derivative terms, probabilities, averages and heat capacities never modifies the arrays passed in by the caller nor the data held by contributions, and never changes the set of registered contributions. Arrays returned to the caller share no memory with stored data, so repeating or interleaving any queries gives the same answers.',
 ['histories','inputs'],'all sequences of queries on shared arrays and shared contribution objects',
 'Each test builds fresh arrays and asks a single question.',
 [PF,SA,UT],[('in-place operators act on fresh arrays only','ElectronicPF.calc_part_func, RotationalPF.calc_part_func')],['all public calc_* functions'])
p('C15','Registering contributions: all kept, in order, once, per instance',
 'Contributions may be registered one at a time or as a list, in any number of calls; afterwards exactly the contributions passed in, in that order, take part. Each approximation object has its own set, and neither later changes to the list passed in nor other approximation objects affect it.',
 ['histories'],'all sequences of registration calls on any number of approximation objects',
 'Tests make one registration call, with a list, on one object.',
 [SA],[('extend or append','SuperpositionApproximation.add_partition_functions'),('per-instance list','SuperpositionApproximation.__init__')],['SuperpositionApproximation'])
p('C16','Without contributions every query answers None, no exception',
 'An approximation object with no registered contributions answers None from its partition-function, probability, ensemble-average and heat-capacity queries, whatever the temperature grid or observable, instead of raising or returning numbers.',
 ['inputs','configurations'],'all temperature grids and observables, freshly created objects or ones extended with an empty list',
 'One test asks for the probability only.',
 [SA],[('None propagation','combine_contributions, calc_probability, calc_ensemble_average, calc_heat_capacity')],['SuperpositionApproximation'])
p('C17','Inconsistent or failing contributions raise, they are never silenced',
 'If registered contributions disagree on the number of isomers, or a contribution raises an exception while being evaluated, the partition-function, probability, ensemble-average and heat-capacity queries raise that error. They never turn it into None or into a numeric result.',
 ['fault_sequences','inputs'],'all mismatched isomer counts and all exceptions raised by contributions',
 'No test has a failing or mismatched contribution.',
 [SA],[('no exception handler around evaluation','SuperpositionApproximation.combine_contributions')],['SuperpositionApproximation'])
p('C18','Quantum vibrational results keep extended precision',
 'Frequencies read from a file and quantum harmonic partition functions and derivative terms are carried in extended (long double) precision, whatever the precision of the frequencies passed in, and so are the combined partition functions and the occupation probabilities that involve a quantum harmonic contribution. No intermediate value is narrowed to double precision on the way, so weights below the double range do not vanish.',
 ['inputs'],'all frequencies and low temperatures',
 'Test values fit in double precision, so narrowing anywhere is invisible.',
 [PF,SA,IO,UT],[('cast to longdouble','QuantumHarmonicPF.__init__, load_properties_from_extxyz'),('output dtype of the exponent','calc_exponent')],['QuantumHarmonicPF','SuperpositionApproximation.calc_probability'])
p('C19','Integer-typed inputs give the same results as floating-point ones',
 'Temperatures, energies, multiplicities, frequencies, moments and symmetry orders given as integer arrays are accepted by every contribution and query, and yield the same values as the equal floating-point arrays: no result is truncated to integers and no in-place operation fails on an integer array.',
 ['inputs'],'all integer-typed arrays, in any mixture',
 'All test inputs are floating point, while the documented usage example passes an integer temperature array.',
 [PF,SA,UT],[('float output buffers','calc_beta, calc_exponent, calc_part_func*')],['PartitionFunction subclasses','SuperpositionApproximation'])
p('C20','Thermal conversions use eV, K and THz with CODATA constants',
 'The inverse temperature is 1/(k_B T) in 1/eV for T > 0 and infinite at T = 0; the exponent of an energy is E/(k_B T) for T > 0, exactly 0 where the energy is 0 (also at T = 0), and the exponent of a nonzero energy at T = 0 is infinite with the sign of the energy. The Boltzmann constant (8.617333262e-5 eV/K) and Planck constant (4.135667696e-3 eV/THz) are the CODATA 2018 values, and every exponential or hyperbolic function in the library takes a dimensionless argument built from them.',
 ['inputs'],'all energies and temperatures',
 'Tests check the conversions at two temperatures with a tolerance of 1e-6; the Planck constant is never tested.',
 [UT,PF],[('k_B','utils.KB'),('h','partitionfunctions.H'),('masked division','calc_beta'),('masked product','calc_exponent')],['calc_beta','calc_exponent'])
p('C21','Loading an isomer file maps every field of every frame, in order',
 'Loading an extended-XYZ file yields one entry per frame, for all frames and in file order, with energy, spin multiplicity, frequencies, principal moments of inertia and rotational symmetry order each taken from that same frame and stored under its own key. Frequencies keep the order in which they are listed in the file. A frame without energy, multiplicity or frequencies makes loading fail instead of being skipped or given a default.',
 ['inputs'],'all extended-XYZ files with any number of frames and modes',
 'One two-frame file is tested, whose frames share energy, multiplicity and (all equal) frequencies.',
 [IO],[('per-frame collection','load_properties_from_extxyz'),('column-major flattening','load_properties_from_extxyz')],['load_properties_from_extxyz'])
p('C22','Symmetry order counts the proper rotations of the point group',
 'The symmetry order of a molecule is the number of operations of its point group, detected from its chemical symbols and positions, that are proper rotations (determinant +1, identity included); improper operations (determinant -1) are not counted.',
 ['inputs'],'all molecules, given the symmetry operations reported by the point-group analyser',
 'One test file covers two H3 geometries.',
 [IO],[('determinant test','calc_symmetry_order')],['calc_symmetry_order'])
p('C23','Command-line flags select exactly the documented contributions',
 'For every combination of command-line flags, the computed results use exactly the contributions requested: -e electronic without spin degeneracy (all multiplicities one), -s electronic with the multiplicities of the file, -c classical vibrations, -q quantum vibrations, -r rotations, each built from the matching columns of the input file. With none of them a message is printed and no file is written.',
 ['configurations'],'all 18 admissible combinations of contribution flags',
 'No test runs the command line.',
 [CLI],[('flag dispatch','cli.main')],['occuprob command'])
p('C24','Command-line options are as documented',
 'The command accepts the documented options in both letter cases (-e/-E, -s/-S, -c/-C, -q/-Q, -r/-R), rejects -e with -s and -c with -q, and takes the input file as its only positional argument. Defaults are 0 to 500 K, SVG images, 8 by 6 inches, no plotting; temperatures and sizes are parsed as numbers, and every option changes only what it documents.',
 ['configurations'],'all command lines',
 'No test runs the command line.',
 [CLI],[('argument parser','cli.main')],['occuprob command'])
p('C25','Result files hold both quantities for every temperature',
 'Each run with at least one contribution writes exactly two text tables, for heat capacity and occupation probabilities, each with one line per temperature: the temperature first, then the quantity (all isomers in file order for the probabilities). With plotting requested, each table is also plotted over the same temperatures from the same numbers; without it no image is written.',
 ['configurations','inputs'],'all flag combinations, input files and temperature ranges',
 'No test runs the command line or looks at written files.',
 [CLI],[('table layout','cli.save_results'),('loop over results','cli.main')],['output files'])
p('C26','Output file names derive from the prefix or the input file name only',
 'Tables are named <prefix>_C.dat and <prefix>_P.dat, where the prefix is --out_file if given and the input path without its file extension otherwise; images have the same name with the lower-cased --plot_format as extension. Nothing else of the path changes, whatever directory and file names contain, so output lands next to the input file or at the prefix.',
 ['inputs','configurations'],'all input paths, prefixes and plot formats',
 'No test runs the command line.',
 [CLI],[('name construction','cli.main')],['output files'])
p('C27','The temperature grid runs from the lower limit in 1 K steps up to the upper',
 'The command evaluates temperatures min_temp, min_temp + 1, min_temp + 2, ... up to the largest such value not exceeding max_temp, which is included when the range is a whole number of kelvin; no temperature outside [min_temp, max_temp] is evaluated.',
 ['inputs'],'all pairs of limits with min_temp <= max_temp, integer or not',
 'No test runs the command line.',
 [CLI],[('grid construction','cli.main')],['temperature column'])
p('C28','Every plot shows all its rows on a figure of its own',
 'Plotting a result opens a new figure of the requested size, draws every row of the result exactly once against the temperatures (with its own label when labels are given), limits the horizontal axis to the temperature range and saves to the requested path after everything is drawn. Nothing drawn by one call appears in the image written by another call.',
 ['inputs','histories'],'all result tables, formats and sequences of plot calls',
 'No test plots anything.',
 [IO,CLI],[('fresh figure, draw, save','io.plot_results'),('format by result type','cli.plot_results')],['image files'])
p('C29','User-defined contributions are first class; incomplete ones are refused',
 'Any object providing the three documented methods (partition function and its two derivative terms, each taking the temperature array) works as a contribution, whether or not it derives from the library\'s base class. The base class cannot be instantiated, nor can a subclass lacking any of the three methods, and each built-in contribution provides all three.',
 ['programs'],'all user-defined contribution classes',
 'Tests use built-in contributions only.',
 [PF,SA],[('abstract methods','PartitionFunction'),('duck-typed dispatch','SuperpositionApproximation.combine_contributions')],['PartitionFunction','SuperpositionApproximation'])
p('C30','Import and version lookup work without version control',
 'Importing the package exposes the documented classes and functions at top level together with a version string. The version lookup always returns version, revision id, dirty flag, error and date, whether the tree is a git checkout, an exported archive or neither, and whether or not git can be run; failing to find a version is reported in the result, not raised.',
 ['configurations','fault_sequences'],'all install situations: git missing, git failing, not a checkout, archive with or without tags',
 'The only test imports the package from one checkout with git available.',
 [INI,VER],[('fallback chain','_version.get_versions'),('re-exports','occuprob/__init__.py')],['import occuprob','occuprob --version'])
p('C31','Array-dictionary comparison is exact on keys and element-wise on values',
 'Comparing two dictionaries of arrays answers true if and only if both have the same set of keys and, for every key, the two arrays are element-wise equal within the default numerical tolerance. One differing key or one differing element anywhere makes it false.',
 ['inputs'],'all pairs of dictionaries',
 'One test with two-entry dictionaries whose entries all differ at once.',
 [UT],[('key test and all()','compare_numpy_dictionaries')],['compare_numpy_dictionaries'])
p('C32','Geometric mean is over each row and zero if any entry is zero',
 'The geometric mean of each row of a non-negative two-dimensional array is the D-th root of the product of its D entries, for any number of rows and columns, and is zero, not NaN, when any entry of that row is zero.',
 ['inputs'],'all non-negative arrays, any shape',
 'Test rows have two equal entries, for which every mean agrees.',
 [UT],[('exp of mean of logs with masked zeros','calc_geometric_mean')],['calc_geometric_mean'])
p('C33','Probabilities stay finite for all system sizes and temperatures',
 'For every number of vibrational modes, all positive frequencies and every T > 0, occupation probabilities are finite and sum to one to rounding accuracy.',
 ['inputs'],'all magnitudes of energies, frequencies, numbers of modes and temperatures',
 'Tests use two or three modes.',
 [PF,SA],[('long double products','QuantumHarmonicPF.calc_part_func')],['SuperpositionApproximation.calc_probability'])
p('C34','Heat capacity is non-negative to rounding accuracy',
 'For every input the computed heat capacity is never negative beyond rounding error.',
 ['inputs'],'all inputs',
 'No test computes a heat capacity.',
 [SA],[('difference of averages','SuperpositionApproximation.calc_heat_capacity')],['SuperpositionApproximation.calc_heat_capacity'])
p('C35','Detected symmetry order equals the true order for slightly distorted geometries',
 'For every molecule whose coordinates deviate from an exactly symmetric geometry by less than the accuracy of a geometry optimisation, the symmetry order is that of the exact geometry.',
 ['inputs'],'all small perturbations of symmetric geometries',
 'Two exact geometries are tested.',
 [IO],[('tolerances of the point-group analyser','calc_symmetry_order')],['calc_symmetry_order'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
