"""More properties (see spec.py)."""


def more(prop, SPA):
    prop(
        "C03", "Explicit bases describe exactly the states they were built from",
        "A basis built from an explicit list of states has those states as its basis states: converting into it gives the overlaps with them, converting out of it gives their combination, and its transformation operator, vectors and dual agree, also when it is nested, stacked or combined with other bases. "
        "The explicit version of any other basis converts every vector exactly as that basis does.",
        "For every list of states (orthonormal or not), inner basis (truncated, transformed, stacked), nesting and axis.",
        "No stable test converts through an explicit basis other than one fixed truncated case.",
        [SPA + "basis/explicit_basis.py"],
        [("ExplicitBasis.__into_fundamental__, from_state_vectors, from_basis", SPA + "basis/explicit_basis.py")],
    )
    prop(
        "F01", "Fourier padding and interpolation reproduce the band limited function",
        "Interpolating regularly sampled data onto another number of points gives the samples of its (band limited) Fourier interpolant along each chosen axis, keeps shared points when upsampling, stays real for real data and preserves the symmetry of the data; spline interpolation along an axis is the spline along that axis. "
        "Padding or cropping a transform keeps exactly the frequencies present in both lengths, in storage order.",
        "For every array shape, set of axes and order, requested lengths (smaller, equal, larger; even, odd).",
        "The stable tests interpolate single axes of a few fixed shapes.",
        [SPA + "util/interpolation.py"],
        [("pad_ft_points, interpolate_points_fftn/rfftn, interpolate_points_along_axis_spline", SPA + "util/interpolation.py")],
    )
    prop(
        "K01", "A cached function is indistinguishable from the function it wraps",
        "Calling a function through its cache returns what the function would return, whatever the history of previous calls, call modes, arguments, cache paths and process restarts, and each of the call modes reads, recomputes or stores the result exactly as its name says. "
        "Timing a function changes neither its result nor its exceptions.",
        "For every history of calls, call modes, arguments and processes.",
        "Needs histories of calls with changing results, several call modes and several processes; the tests contain none.",
        [SPA + "util/decorators.py"],
        [("cached, npy_cached, npy_cached_dict, timed", SPA + "util/decorators.py")],
        over=("histories", "inputs"),
    )
    prop(
        "K02", "An interrupted or concurrent call never leaves a corrupt cache",
        "If the process is killed, the disk write fails, or several processes call the same cached function at once, then every later call still returns a complete result which some call computed: a partial or mixed file is never read back. "
        "A failure while storing the result leaves the previously stored result usable.",
        "For every crash or failure point during the write, and every interleaving of concurrent callers.",
        "Tests run one process which is never interrupted.",
        [SPA + "util/decorators.py"],
        [("cached / npy_cached file writes", SPA + "util/decorators.py")],
        over=("crash_points", "schedules"),
        technique="runtime monitoring under fault injection: kill/fail the write at enumerated offsets and operations, register-history checker for concurrent callers",
    )
    prop(
        "V01", "Potentials keep their values under conversion, scaling and interpolation",
        "Converting a potential, evaluating it between grid points, differentiating it, interpolating an unevenly sampled one or selecting its minimum column gives the values of the same function on the same lattice. "
        "Truncation and its undo are inverse, normalisation makes the minimum zero, and the listed high symmetry points are those of the cell.",
        "For every lattice, grid, storage basis, real or complex data, and every parameter of the scaling functions.",
        "The stable tests interpolate one fixed potential.",
        [SPA + "potential/potential.py", SPA + "potential/conversion.py", SPA + "potential/_comparison_points.py", SPA + "stacked_basis/potential_basis.py"],
        [("convert_potential_to_basis, get_continuous_potential, get_potential_derivative", SPA + "potential/conversion.py"), ("truncate_potential, interpolate_uneven_potential", SPA + "potential/potential.py")],
    )
    prop(
        "V02", "A stored potential is loaded back unchanged",
        "Loading a potential which was written in one of the supported file formats gives the same values at the same points of the same lattice, in a form every other function accepts. "
        "Saving never changes the object that is saved.",
        "For every potential, shape, lattice and file format.",
        "No stable test reads or writes a potential.",
        [SPA + "potential/potential.py", SPA + "potential/point_potential.py"],
        [("load_potential_grid_json, load_uneven_potential_json, save/load_potential", SPA + "potential/potential.py")],
    )
    prop(
        "S01", "Lists of states keep every state, its data and its label",
        "Building, selecting, stacking, enumerating and reducing a list of states, and inner products, overlaps and averages over it, give exactly what the same operation gives for each state on its own, with each state keeping its index and its eigenvalue. "
        "Phase fixing, normalisation and reference states (point, plane-wave, zero) change only what they name, and a state along chosen axes is the slice of the full state in that order of axes.",
        "For every number of states, basis, lattice dimension, axis subset and order, index.",
        "No stable test builds a list of states.",
        [SPA + "state_vector/state_vector_list.py", SPA + "state_vector/state_vector.py", SPA + "state_vector/util.py", SPA + "state_vector/eigenstate_calculation.py", SPA + "state_vector/eigenstate_list.py"],
        [("as_state_vector_list, state_vector_list_into_iter, get_state_vector, get_weighted_state_vector, average_state_vector", SPA + "state_vector/state_vector_list.py")],
    )
    prop(
        "S02", "Probabilities are the Born rule and marginals conserve them",
        "The probability of a state in a basis is the squared magnitude of its amplitudes in it, also for lists of states; summing over axes conserves the total and gives the marginal on the remaining axes, and averaging (weighted or not) is the mean over the axes that were named.",
        "For every state, list, basis, axis subset and order, weights.",
        "No stable test computes a probability.",
        [SPA + "probability_vector/probability_vector.py", SPA + "probability_vector/conversion.py"],
        [("from_state_vector(_list), sum_probability, sum_probabilities, average_probabilities", SPA + "probability_vector/probability_vector.py")],
    )
    prop(
        "O01", "Operator arithmetic is matrix arithmetic in any basis",
        "Adding, scaling, multiplying, daggering, commuting and applying functions to operators, diagonal operators and lists of operators, and applying them to states, lists or duals, give the matrix result, whatever bases they are stored in; no input is modified. "
        "Diagonal, real or sparse representations describe the same operator as the dense one, and reductions (trace, axis selection) agree with it.",
        "For every operator, list, state, and every pair of bases over the same space, square or not.",
        "No stable test computes with an operator.",
        [SPA + "operator/operations.py", SPA + "operator/operator.py", SPA + "operator/operator_list.py"],
        [("matmul_operator, add_operator, get_commutator, apply_operator_to_states, ...", SPA + "operator/operations.py")],
    )
    prop(
        "O02", "Displacement and periodic operators follow the minimum image convention",
        "The displacement of two grid points is their difference reduced by whole cell lengths to the interval around the requested origin, along a basis, along an axis of a stacked basis, and as a matrix; operators built from positions, momenta and displacements act as the corresponding multiplication.",
        "For every grid, lattice, axis and origin.",
        "No stable test builds a displacement operator.",
        [SPA + "operator/build.py", SPA + "stacked_basis/util.py", SPA + "util/util.py"],
        [("get_displacements_x, get_displacements_matrix_x_along_axis, x/k operators", SPA + "operator/build.py, " + SPA + "stacked_basis/util.py")],
    )
    prop(
        "E01", "Eigenstates diagonalise the operator and give its expectation values",
        "The states and values returned by the (hermitian, subset, general) eigenstate calculations satisfy A v = λ v with normalised states, in order and complete, for every basis the operator is stored in, and are the requested subset. "
        "Expectation values, overlaps, coherences, and matrix elements computed from states equal ⟨ψ|A|ψ⟩, and the operator rebuilt from its eigenstates is the operator.",
        "For every hermitian or general operator, including degenerate ones, every basis and index range.",
        "No stable test diagonalises an operator.",
        [SPA + "state_vector/eigenstate_calculation.py", SPA + "state_vector/eigenstate_list.py"],
        [("calculate_eigenvectors_hermitian, calculate_expectation, calculate_operator_inner_product", SPA + "state_vector/eigenstate_calculation.py")],
    )
    prop(
        "H01", "The Hamiltonian in the momentum basis is kinetic plus potential energy",
        "The kinetic operator has the eigenvalues ħ²|k+q|²/2m on plane waves, the potential term acts as multiplication by the potential in position space, and the total Hamiltonian, in any basis, is their sum; it is hermitian, and at Bloch phase q has the spectrum of the supercell states with that phase. "
        "A basis made from the eigenstates of a potential along an axis holds the lowest eigenstates of the one dimensional Hamiltonian.",
        "For every lattice, shape, potential, mass, Bloch phase (inside or outside the first zone) and basis.",
        "No stable test builds a Hamiltonian.",
        [SPA + "hamiltonian_builder/momentum_basis.py", SPA + "stacked_basis/potential_basis.py"],
        [("total_surface_hamiltonian, hamiltonian_from_mass, hamiltonian_from_potential_momentum", SPA + "hamiltonian_builder/momentum_basis.py")],
    )
    prop(
        "H02", "Hamiltonians in a localised z basis are projections of the full one",
        "The surface Hamiltonian built in a basis which is explicit (eigenstates, oscillator states) in z, and momentum states in the plane, is the full grid Hamiltonian at that Bloch phase projected onto the states of that basis; the extension module behind it computes the oscillator functions and the coupling integrals of its definition. "
        "Returned states live in the basis that is returned with them.",
        "For every potential, orthogonal cell, truncation, mass, Bloch fraction, oscillator frequency and origin.",
        "No stable test imports these modules.",
        [SPA + "hamiltonian_builder/explicit_z_basis.py", SPA + "hamiltonian_builder/sho_subtracted_basis.py", "lib"],
        [("PyHamiltonianUtil, total_surface_hamiltonian", SPA + "hamiltonian_builder/")],
    )
    prop(
        "H03", "Oscillator bases hold the normalised oscillator eigenfunctions",
        "The harmonic oscillator functions follow their three term recursion, are normalised and centred on the requested origin along the lattice direction, and the bases built from them (sampled or projected, with any number of states) hold exactly those functions, in order.",
        "For every mass, frequency, origin, cell and quantum number in the range where they can be evaluated.",
        "No stable test evaluates an oscillator function.",
        [SPA + "stacked_basis/sho_basis.py"],
        [("calculate_sho_wavefunction, infinate_sho_basis_from_config, sho_axis_3d_from_config", SPA + "stacked_basis/sho_basis.py")],
    )
    prop(
        "N01", "Every representation of a noise kernel is the same kernel",
        "Converting a noise kernel between its full, diagonal, isotropic and per-axis forms, to and from noise operators (K = Σ e L†⊗L), and to another basis, keeps the correlation of every pair of elements; eigen-operators are orthonormal and rebuild the kernel, and keeping the operators with the largest coefficients gives its best approximation; a kernel which is not hermitian is refused. "
        "Operators that are combined from several axes give the product kernel.",
        "For every kernel (any hermitian coefficients of either sign where defined, any magnitude), number of operators, basis and truncation.",
        "No stable test builds a kernel.",
        [SPA + "kernel/kernel.py", SPA + "kernel/conversion.py", SPA + "kernel/build.py", SPA + "kernel/solve/_eigenvalue.py"],
        [("as_*_kernel_from_*, get_*_kernel_from_*, truncate_*, convert_kernel_to_basis", SPA + "kernel/")],
    )
    prop(
        "N02", "Periodic noise operators reproduce the requested correlation",
        "The operators returned for an isotropic kernel (by Fourier transform, or by fitting or stating its Taylor expansion, on one or several axes) rebuild that kernel at every pair of points; with fewer terms they reproduce the correlation around the origin to the stated order. "
        "There is one coefficient per operator and data is flat and in the order of the returned basis.",
        "For every isotropic kernel of the supported kind, grid size (odd, even), number of terms and periodic sample.",
        "No stable test solves for noise operators.",
        [SPA + "kernel/solve/_fft.py", SPA + "kernel/solve/_taylor.py", SPA + "kernel/solve/_util.py"],
        [("get_periodic_noise_operators_*", SPA + "kernel/solve/")],
    )
    prop(
        "N03", "Gaussian, lorentzian and temperature corrected noise match their formulas",
        "Kernels built from a correlation function have β(x−x′) at the minimum image displacement of every pair of points; gaussian and lorentzian kernels, their effective parameters for a friction and temperature, and their (truncated, Taylor, per axis) operators reproduce a²exp(−d²/2λ²) and a²λ²/(d²+λ²). "
        "Temperature corrected operators are L − [H, L]/4kT with unchanged coefficients, in the basis that is returned with them.",
        "For every orthogonal cell, grid, amplitude, length, friction, temperature, Hamiltonian and number of terms.",
        "No stable test builds one of these kernels.",
        [SPA + "kernel/gaussian.py", SPA + "kernel/lorentzian.py", SPA + "kernel/build.py"],
        [("get_gaussian_*, get_effective_*, get_temperature_corrected_*", SPA + "kernel/")],
    )
    prop(
        "N04", "Sampled noise has the covariance of the kernel it is sampled from",
        "Noise sampled from a set of operators or a kernel is a combination of those operators with independent, zero mean, circular complex gaussian factors whose covariance is ħ times the kernel (of the retained operators); different samples and different calls are independent. "
        "The split components sum to the sampled noise and each is a multiple of its operator.",
        "For every set of diagonal or full operators, coefficients, truncation and number of samples (decided within nine standard errors).",
        "No stable test samples noise.",
        [SPA + "kernel/sample.py"],
        [("sample_noise_from_*", SPA + "kernel/sample.py")],
    )
    prop(
        "W01", "A wavepacket describes the same Bloch states in every representation",
        "Conversion of a wavepacket (or list of them) between sample lists, state bases and shapes keeps the wavefunction of every sample, as a state of the supercell, up to exact projection, and unfurling or furling it gives exactly the state which is the normalised sum over the samples. "
        "Sample fractions, coordinates, number and the bases derived from them are those of the samples in storage order, and eigenvalues stay attached to their sample.",
        "For every list of samples, state basis, number of bands and cell in one to three dimensions.",
        "No stable test builds a wavepacket; flat data, storage order of the samples and truncated bases each go wrong on their own.",
        [SPA + "wavepacket/wavepacket.py", SPA + "wavepacket/conversion.py", SPA + "wavepacket/eigenstate_conversion.py"],
        [("convert_wavepacket_*, unfurl_wavepacket*, furl_eigenstate, get_wavepacket_sample_*", SPA + "wavepacket/")],
    )
    prop(
        "W02", "Bloch and Wannier states and bases are those of the wavepacket",
        "The state, eigenstate, tight binding state and state list obtained from a wavepacket at a sample are the Bloch wave of that sample (restricted to one cell for the tight binding state), and a Bloch basis converts vectors by exactly those states along any axis. "
        "Bloch and Wannier Hamiltonians hold the matrix elements of the sum of eigenvalue projectors; Wannier states are orthonormal for a unitary localization operator, sum the samples and are translated by whole cells.",
        "For every list of samples, state basis (truncated ones too), number of bands and cell in one to three dimensions.",
        "No stable test builds a wavepacket; the library only compares its two Bloch basis algorithms with each other.",
        [SPA + "wavepacket/get_eigenstate.py", SPA + "wavepacket/localization_operator.py"],
        [("get_wavepacket_state_vector, get_bloch_*, get_wannier_*, BlochBasis", SPA + "wavepacket/get_eigenstate.py")],
    )
    prop(
        "W03", "Localization only chooses gauges and mixes bands, as it says it does",
        "Every localization of a wavepacket multiplies each Bloch sample by a phase (one band) or by an isometry between bands (many), so that at the chosen or maximum point all samples have the requested phase, overlaps with the projection form the closest positive matrix, or the states diagonalise position. "
        "Localization operators act per sample and projections (single points, evenly spaced points, gaussians, free states) are those of the named point of the cell.",
        "For every list of samples, state basis, projection, number of bands and cell in one to three dimensions.",
        "No stable test localizes a wavepacket.",
        [SPA + "wavepacket/localization/", SPA + "wavepacket/localization_operator.py", SPA + "state_vector/util.py"],
        [("localize_*, get_localization_operator_*, get_*_states", SPA + "wavepacket/localization/")],
    )
    prop(
        "W04", "Files exchanged with wannier90 describe the wavepacket, and are read back right",
        "The .win, .mmn and .amn files written for wannier90 hold the cell, samples, options, overlaps between neighbouring samples and projections of the given wavepacket, in the format and index order wannier90 reads. "
        "The unitary matrices it answers with become the localization operator whose n-th state mixes the bands with column n; each band alone when asked, and temporary files are removed.",
        "For every list of samples, state basis, cell, number of bands, neighbour list, projection and ignored axis (decided with a recording stand-in for wannier90.x).",
        "No stable test writes or reads these files, and wannier90 itself would silently localize a wrong problem.",
        [SPA + "wavepacket/localization/_wannier90.py"],
        [("get_localization_operator_wannier90*, localize_wavepacket_wannier90", SPA + "wavepacket/localization/_wannier90.py")],
    )
    prop(
        "L01", "Overlaps are pointwise products of states, and interpolate exactly in momentum",
        "The overlap of states or unfurled wavepackets i, j is conj(i) times j at every point, with j translated by the shift along each axis, and conversion between bases keeps it. "
        "Momentum interpolators evaluate the Fourier sum over the (nearest) points at any momentum, with only the largest terms if asked, and the angle average weighs every angle once.",
        "For every state, band count, lattice, shape, shift and momentum.",
        "No stable test covers overlaps.",
        [SPA + "overlap/calculation.py", SPA + "overlap/conversion.py", SPA + "overlap/interpolation.py", SPA + "overlap/overlap.py"],
        [("calculate_*_overlap, convert_overlap_to_*, get_overlap_momentum_interpolator*", SPA + "overlap/")],
    )
    prop(
        "D01", "Closed systems evolve by the exponential of their Hamiltonian, at true times",
        "The state at every time of the basis is exp(-iHt/hbar) applied to the initial state, whichever solver is used, in the basis of the Hamiltonian, and coefficients in eigenstates are overlaps with them. "
        "Time bases list their points as offset + i step times the fundamental step, and convert data to and from the fundamental points.",
        "For every Hamiltonian (degenerate included), state, pair of bases and times.",
        "No stable test solves a Schroedinger equation.",
        [SPA + "dynamics/schrodinger/solve.py", SPA + "basis/time_basis_like.py"],
        [("solve_schrodinger_equation*, get_state_vector_decomposition", SPA + "dynamics/schrodinger/solve.py")],
    )
    prop(
        "D02", "Stochastic solvers are given, and solve, the equation which was asked for",
        "The equation handed to the rust solvers, dense or banded, is that of H/hbar and L/sqrt(hbar) with the fundamental time step, whatever its scaling, up to the stated threshold, and qutip trajectories follow it: exactly without noise, and on average the master equation. "
        "Collapse operators built from hopping rates (matrix or function) hold each hop exactly once, between the right sites and bands, and leave their input as it was.",
        "For every Hamiltonian, list of operators (none included), basis, times and numbers of trajectories (the rust extension is not installed: a recording stand-in is used).",
        "No stable test runs a stochastic solver.",
        [SPA + "dynamics/stochastic_schrodinger/solve.py", SPA + "dynamics/util.py"],
        [("solve_stochastic_schrodinger_equation*, get_*collapse_operators*", SPA + "dynamics/stochastic_schrodinger/solve.py"), ("build_hop_operator, get_hop_shift", SPA + "dynamics/util.py")],
    )
    prop(
        "D03", "Incoherent hopping is the classical master equation on the supercell",
        "Jump, A and M matrices describe the same rates between sites and bands in every supercell, M conserves probability, occupations evolve by exp(Mt) to its null vector, and rates and coefficients are those of M; no input changes. "
        "The ISF weighs each site by exp(i dk r) at its image nearest to the start, and averages over the equilibrium bands as stated.",
        "For every set of rates, supercell, number of bands, band locations, cell, start, times and momentum.",
        "No stable test covers incoherent dynamics.",
        [SPA + "dynamics/incoherent_propagation/", SPA + "dynamics/tunnelling_basis.py", SPA + "dynamics/isf.py"],
        [("get_a_matrix_*, get_tunnelling_m_matrix", SPA + "dynamics/incoherent_propagation/tunnelling_matrix.py"),
         ("calculate_*_isf, get_rate_decomposition", SPA + "dynamics/incoherent_propagation/isf.py")],
    )
    prop(
        "D04", "ISF models are the fcc-hcp hopping problem, and fits recover their curves",
        "The Fey models are the scattering function of hopping between fcc and hcp sites with the given total rates, starting at one, and the free amplitude and double exponential forms have the same rates. "
        "Fitting data generated near the starting guess reproduces its curve for every measure, and gamma integrals equal the documented formulas.",
        "For every rate, ratio, momentum and list of times; fits near the starting guess; thermal energies well below the Fermi energy.",
        "No stable test covers these models.",
        [SPA + "dynamics/isf.py", SPA + "dynamics/hermitian_gamma_integral.py"],
        [("calculate_isf_fey_*, fit_isf_to_*, extract_fey_rate_*", SPA + "dynamics/isf.py"), ("calculate_*_integral", SPA + "dynamics/hermitian_gamma_integral.py")],
    )
    prop(
        "R01", "A plot shows the values of the object it is given, at their coordinates",
        "A line or surface plot of a vector, state, list of states, potential, kernel, probability or operator diagonal shows exactly the requested slice of it: the value of each grid point under the chosen measure, at the position (or momentum) of that point projected onto the plotted axes, whatever basis the object is stored in and however the axes are ordered. "
        "Without an index the slice passes through the largest value; comparison plots show one labelled line per site; the drawing goes to the given axes (and only there), the whole data is in view, the colour range spans the data, the labels name the directions which are shown, both directions of a surface have the same unit of length and a symlog scale follows the size of the data; the scale and the measure which are asked for are those of every artist, and a scale never changes the values which are shown.",
        "For every lattice of dimension 1-3, storage basis, axes, index, measure and scale.",
        "No stable test draws a figure.",
        [SPA + "util/plot.py", SPA + "state_vector/plot.py", SPA + "state_vector/state_vector_list_plot.py", SPA + "potential/plot.py", SPA + "operator/plot.py", SPA + "kernel/plot.py", SPA + "probability_vector/plot.py"],
        [("plot_data_1d_x/k/n, plot_data_2d_x/k", SPA + "util/plot.py"), ("plot_state_*, plot_potential_*, plot_operator_*", SPA + "state_vector/plot.py")],
    )
    prop(
        "R02", "Animations, paths and scatter plots show every element that was asked for, once",
        "An animation over a list or through a volume has one frame per element (plane), each showing that element at its coordinates, and all frames share one colour range which spans the data (or is the given one). "
        "A plot along a path shows the value at every point of the path against the distance along it, a minimum path passes through the lowest potential along the free axis, and plots of positions, momenta, Bragg points, Brillouin zones, point potentials, uneven potentials and basis states show exactly the points of the lattice or of the data set; every drawing has the scale and the measure which are asked for.",
        "For every lattice, storage basis, list, axes, path (inside or outside of the cell), index and measure.",
        "No stable test draws a figure.",
        [SPA + "util/plot.py", SPA + "state_vector/plot.py", SPA + "stacked_basis/plot.py", SPA + "potential/", SPA + "basis/plot.py", SPA + "wavepacket/plot.py"],
        [("animate_data_through_*, build_animation", SPA + "util/plot.py"), ("plot_*_projected_2d", SPA + "stacked_basis/plot.py"), ("get_minimum_path, plot_potential_along_path", SPA + "potential/plot.py")],
    )
    prop(
        "S03", "Positions, momenta and spreads of trajectories are those of the states",
        "The periodic position operator is exp(2πi n·x) in every basis; the position, momentum and spread of a list of states are the centre, the mean momentum and the width of each (normalized) state along the chosen lattice direction, in metres and inverse metres whatever the dimension of the lattice, and recover those a coherent wavepacket was built with. "
        "Average displacements are the mean squared difference and the average ISF the mean of exp(ik(x(t+s)-x(s))) over all pairs of times with the same delay, labelled with that delay, and the drift at a constant momentum is in proportion to the mean change of position. None of these changes the states it was given.",
        "For every lattice of dimension 1-3, storage basis, axis, list of (unnormalized) states and trajectory.",
        "No stable test evaluates these.",
        [SPA + "state_vector/plot.py"],
        [("get_periodic_x_operator, get_coherent_coordinates", SPA + "state_vector/plot.py"), ("get_average_displacements, get_average_isf, get_normalized_average_drift", SPA + "state_vector/plot.py")],
    )
    prop(
        "R03", "Plots of series show the data against its true times, frequencies or energies",
        "Values are drawn against the times (momenta, indices) of their basis, one line per list (or per cumulative sum); spectra are the Fourier transform with respect to the true times, in order of frequency; averages come with the standard error of the measured values; histograms are normalized, cover the data and carry the fit which was asked for. "
        "Trajectory plots show the position, momentum or spread of each state of each trajectory; occupations are the squared overlaps with each eigenstate (or band) against its energy above the ground state. The inputs are left unchanged; every drawing has the scale and the measure which are asked for.",
        "For every time basis (stepped, offset or explicit), measure, scale, list of states and Hamiltonian without degeneracy.",
        "No stable test draws a figure.",
        [SPA + "state_vector/plot.py", SPA + "state_vector/plot_value_list.py", SPA + "util/plot.py", SPA + "util/squared_scale.py"],
        [("plot_value_list_*", SPA + "state_vector/plot_value_list.py"), ("plot_*_1d_x, plot_*_occupation*", SPA + "state_vector/plot.py"), ("SquaredScale", SPA + "util/squared_scale.py")],
    )
    prop(
        "R04", "Spectra, probabilities, overlaps, ISF, noise and sparsity plots show the data",
        "Plots of eigenvalue lists, probability vectors, overlaps between wavepackets, intermediate scattering functions (full, fitted, rate-based), noise kernels and operators, tunnelling rates and operator sparsity draw exactly the quantity they name: each value at its own time, index, momentum transfer or position, averages over the lists they were given, fits of the data shown, and counts of elements which include the smallest and the largest. "
        "Sampled noise has the covariance of its kernel, truncations keep the largest contributions, and no plot changes its input; every drawing has the scale and the measure which are asked for.",
        "For every list length, time basis, lattice, kernel (diagonal, isotropic or full), operator and set of direction transfers.",
        "No stable test draws a figure.",
        [SPA + "kernel/plot.py", SPA + "operator/plot.py", SPA + "overlap/plot.py", SPA + "probability_vector/plot.py", SPA + "dynamics/plot.py", SPA + "dynamics/isf_plot.py", SPA + "dynamics/incoherent_propagation/plot.py", SPA + "state_vector/eigenvalue_list_plot.py"],
        [("plot_*_sparsity", SPA + "operator/plot.py"), ("plot_*_kernel_*, plot_*_noise_*", SPA + "kernel/plot.py"), ("plot_*isf*", SPA + "dynamics/isf_plot.py"), ("plot_overlap_*", SPA + "overlap/plot.py")],
    )
    prop(
        "R05", "Plots of wavepackets and effective masses follow the bands and the supercell",
        "Plots of a wavepacket show the state of the whole supercell (every sample with its Bloch phase) at its true positions and momenta, sample and energy plots show each band at the momentum of its samples whichever basis the list is stored in, and band occupations are the Boltzmann weights of all samples, wherever the zero of energy is. "
        "The effective mass, from transformed or from localized energies, of a free particle is its mass, whatever the number of samples, lattice constant and band; every drawing has the scale and the measure which are asked for.",
        "For every wavepacket of dimension 1-3, list and state basis, axes, band selection, temperature and localization operator.",
        "No stable test draws a figure or evaluates a mass.",
        [SPA + "wavepacket/plot.py"],
        [("plot_wavepacket_*", SPA + "wavepacket/plot.py"), ("get_wavepacket_*_effective_mass, get_wavepacket_band_occupation", SPA + "wavepacket/plot.py")],
    )
    prop(
        "A01", "Calls leave their arguments as they were",
        "Calling any public function or method of the package leaves the arrays, dictionaries, lists and bases that were passed to it as they were: the same values, shapes, types and entries, also through views that share memory with the caller. "
        "So a caller can use an operator, a state or a basis again after passing it on, in any order.",
        "For every function of the package, every argument (contiguous, views, real or complex, already in the wanted basis or not) and every history of calls on shared objects.",
        "Tests compare what a call returns, not what it does to its arguments; in place arithmetic shows in the next use of the same object only.",
        [SPA],
        [("all functions which take a state, operator, potential, overlap, wavefunction or basis", SPA + "operator/operator.py"), ("in place arithmetic on the data of arguments", SPA + "state_vector/conversion.py")],
        over=("inputs", "histories"),
    )
    prop(
        "A02", "Every result fits the basis it comes with",
        "Each vector, operator, list, potential, overlap or eigenstate which the package returns holds a flat numeric array with exactly one value for each element of its basis (or, if diagonal, each diagonal element), and one eigenvalue for each state of a list. "
        "So any result can be passed on to any conversion that accepts its kind.",
        "For every function of the package which returns data with a basis, and every shape, number of dimensions, list size (one or empty included) and basis type.",
        "The size of a result depends on shapes, list lengths and basis types, of which the tests use a handful.",
        [SPA],
        [("as_flat_operator and the list forms", SPA + "operator/operator_list.py"), ("reductions and measurements", SPA + "state_vector/plot.py")],
    )
    prop(
        "A03", "Results depend on the values of the arguments only",
        "Calling a (deterministic) function or method of the package with equal arguments gives the same result: whatever was called before, whether the arrays are contiguous, strided, reversed or read only, whether bases and arrays are the same objects or equal copies (objects that are shared between arguments stay shared), whether real data is stored as real or complex numbers and numbers are python or numpy numbers. "
        "Overwriting the arrays of a result does not change what later calls return.",
        "For every deterministic function of the package, arguments, history of calls and layout of the arguments in memory.",
        "A test calls a function once, on fresh contiguous arrays; hidden state and assumptions on the layout do not show.",
        [SPA],
        [("all functions which take a state, operator, potential, overlap, wavefunction or basis", SPA + "basis/util.py"), ("cached properties and functions", SPA + "util/interpolation.py")],
        over=("inputs", "histories"),
    )
