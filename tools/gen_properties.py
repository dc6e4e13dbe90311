"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
S = "src/sleplet/"
p("C01", "Polar cap and polar gap Slepian functions solve the concentration problem",
  "For every bandlimit, cap size and choice of single or double cap (double caps not exceeding a hemisphere each), the polar Slepian eigenvalues and eigenvectors solve the concentration eigenproblem of spherical harmonics over that cap: the eigenvalues are the fractions of energy inside the cap in descending order, the eigenvectors are orthonormal harmonic coefficients satisfying the eigen-equation, and each carries the order m it is reported with. "
  "The Shannon number is the rounded bandlimit squared times the region's fraction of the sphere. "
  "Asking for one order returns exactly the eigenpairs of that order (of either sign), descending, and none of another.",
  ["inputs", "configurations"], "all L>=1, theta_max in (0,pi) (<=pi/2 for a double cap), gap on/off, every order |m|<L or all orders",
  "Tests build one cap (L=16, 40 degrees) and only look at derived decompositions; nothing compares the eigenproblem with an independent solution (on the installed NumPy the whole matrix was zero and the stable tests passed).",
  [S+"slepian/slepian_polar_cap.py", S+"slepian/slepian_functions.py"],
  [("per-order matrix from Wigner 3j and Legendre polynomials", S+"slepian/slepian_polar_cap.py:_create_Dm_matrix"), ("merge and sort of all orders", S+"slepian/slepian_polar_cap.py:_sort_all_evals_and_evecs")],
  ["SlepianPolarCap(...).eigenvalues/.eigenvectors/.order/.N"])
p("C02", "Latitude-longitude Slepian functions solve the concentration problem",
  "For every bandlimit and every valid colatitude-longitude rectangle, the Slepian eigenvalues and eigenvectors solve the concentration eigenproblem over that rectangle: eigenvalues are the fractions of energy inside it in descending order, and eigenvectors are orthonormal harmonic coefficients satisfying the eigen-equation. "
  "The Shannon number is the rounded bandlimit squared times the rectangle's fraction of the sphere.",
  ["inputs", "configurations"], "all L>=1 and 0<=theta_min<theta_max<=pi, 0<=phi_min<phi_max<=2pi with at least one non-default limit",
  "One rectangle at one L is built in the tests and its eigenproblem is never checked against anything independent.",
  [S+"slepian/slepian_limit_lat_lon.py", S+"_array_methods.py"],
  [("analytical sub-integral matrix and Wigner-d sums", S+"slepian/slepian_limit_lat_lon.py:_slepian_integral,_slepian_matrix"), ("Hermitian completion", S+"_array_methods.py")],
  ["SlepianLimitLatLon(...).eigenvalues/.eigenvectors/.N"])
p("C03", "Slepian functions of an arbitrary mask solve the masked concentration problem",
  "For every bandlimit and every mask sampled at twice the bandlimit, the Slepian eigenvalues and eigenvectors solve the concentration eigenproblem whose matrix holds the inner products of spherical harmonics over the mask, integrated with the library's area weights of the sampling grid. "
  "Eigenvalues are real and in descending order, eigenvectors are orthonormal, and the Shannon number is the rounded bandlimit squared times the weighted mask area over 4 pi.",
  ["inputs", "configurations"], "all L>=1 and all boolean masks on the 2L grid, any shape (disconnected, empty of poles, single pixel, everywhere)",
  "The only masks used by the tests are South America and Africa, which need data that is not available offline.",
  [S+"slepian/slepian_arbitrary.py", S+"_slepian_arbitrary_methods.py", S+"_integration_methods.py", S+"_array_methods.py"],
  [("parallel matrix fill using symmetries for m=0", S+"slepian/slepian_arbitrary.py:_matrix_helper"), ("eigenvector clean-up", S+"_slepian_arbitrary_methods.py:clean_evals_and_evecs")],
  ["SlepianArbitrary(...).eigenvalues/.eigenvectors/.N"])
p("C04", "Slepian forward and inverse transforms on the sphere",
  "For every region and signal, the forward transform returns for each requested rank (the Shannon number of them by default) the inner product of the signal with that Slepian function, whichever of the three input forms is given: harmonic coefficients, samples over the sphere, or samples with a region mask (divided by the eigenvalue); samples are integrated with the area weights of the grid. "
  "The inverse transform synthesises the sum of the first Shannon-number coefficients times their Slepian functions, so any signal in the span of those functions is recovered exactly through its harmonic coefficients. "
  "A missing signal or a rank outside 0 to L^2-1 is rejected with an error.",
  ["inputs", "configurations"], "all regions of the three kinds, complex and real signals, dense and sparse, any number of coefficients up to L^2",
  "Tests compare one Earth signal per region with loose tolerances, and those need unavailable data.",
  [S+"slepian_methods.py", S+"slepian/_slepian_decomposition.py", S+"_integration_methods.py"],
  [("method detection and rank validation", S+"slepian/_slepian_decomposition.py"), ("truncated synthesis", S+"slepian_methods.py:slepian_inverse,compute_s_p_omega")],
  ["slepian_methods.slepian_forward", "slepian_methods.slepian_inverse", "slepian_methods.compute_s_p_omega"])
p("C05", "Regions are classified, validated and masked as documented",
  "Every combination of angles and mask name is classified the documented way - polar cap when only the maximum colatitude is set, latitude-longitude when any other limit is set, else the named mask, else an error - out-of-range angles are rejected, the matching kind of Slepian functions is built with the region's own limits, and an unspecified region comes from the environment variables in degrees. "
  "The mask of a region contains exactly the grid samples inside its closed angular limits (both caps for a double cap), and an arbitrary mask whose shape does not match the bandlimit is rejected. "
  "Masking a signal gives the transform of its samples inside the region, zero elsewhere, for real and complex signals of any spin.",
  ["inputs", "configurations"], "all angle combinations including exact boundary and default values, all mask names, all environment settings, all L",
  "Tests try one value for each of the three kinds and never sample a mask.",
  [S+"slepian/region.py", S+"_bool_methods.py", S+"_mask_methods.py", S+"slepian_methods.py"],
  [("classification predicates", S+"_bool_methods.py"), ("mask creation", S+"_mask_methods.py:create_mask_region"), ("environment defaults", S+"_mask_methods.py:create_default_region")],
  ["slepian.Region", "choose_slepian_method", "create_mask_region", "Slepian objects' .mask"])
p("C06", "Sifting convolution and translation obey their coefficient-wise definition",
  "For all harmonic or Slepian signals, the sifting convolution is the product of the first signal's coefficients with the conjugate of the second's (truncated to the Shannon number when one is given), for one signal or a stack of them. "
  "Translating a signal to a point multiplies its coefficients by the basis functions evaluated at that point - spherical harmonics, or the first Shannon-number Slepian functions at the nearest grid sample - and translating a Dirac delta yields the delta at that point. "
  "Neither operation changes the stored coefficients of the signal nor leaves it marked real when the result is not the transform of a real field, and rotating a Slepian signal is refused.",
  ["inputs", "histories"], "all catalogue functions, generated coefficients, angles, stacks and truncations",
  "Tests cover one point and one signal pair, mostly needing unavailable data.",
  [S+"functions/coefficients.py", S+"_convolution_methods.py", S+"functions/flm.py", S+"functions/fp.py", S+"slepian_methods.py"],
  [("coefficient-wise product", S+"_convolution_methods.py"), ("basis at omega'", S+"functions/flm.py,fp.py:_translation_helper")],
  ["Coefficients.convolve", "Coefficients.translate"])
p("C07", "Rotation, upsampling and sampling of harmonic signals preserve the function",
  "For every bandlimited signal and Euler angles, the rotated coefficients represent the original function evaluated at the inversely rotated points, so energy per degree is preserved; the fixed Africa and South America views are the rotations by their documented angles. "
  "Upsampling evaluates exactly the same bandlimited function on the finer grid, for real and complex signals and any spin. "
  "Random signals have the requested variance and are a deterministic function of the given generator.",
  ["inputs"], "all bandlimits, coefficients, angles, resolutions, spins",
  "Tests check array sizes and one rotated delta.",
  [S+"harmonic_methods.py", S+"functions/flm.py"],
  [("zero padding then synthesis", S+"harmonic_methods.py:invert_flm_boosted"), ("rotation", S+"functions/flm.py:rotate")],
  ["Flm.rotate", "harmonic_methods.invert_flm_boosted", "harmonic_methods.rotate_earth_to_*", "harmonic_methods.compute_random_signal"])
p("C08", "Axisymmetric wavelets tile the spectrum and reconstruct exactly",
  "For every bandlimit, dilation parameter and minimum scale, the scaling function and wavelets tile the spectrum (their squared generating functions sum to one at every degree), each wavelet j lives only on the degrees between B^(j-1) and B^(j+1), and the number of scales is the maximum scale minus the minimum plus two. "
  "The forward transform multiplies each degree of the signal by the matching wavelet, and the inverse transform of the coefficients of any signal returns that signal.",
  ["inputs", "configurations"], "all L, B>=2, valid j_min, all signals including sparse ones",
  "Tests reconstruct one Earth map that is unavailable offline and check array shapes.",
  [S+"wavelet_methods.py", S+"functions/axisymmetric_wavelets.py", S+"functions/axisymmetric_wavelet_coefficients_earth.py"],
  [("generating functions", S+"wavelet_methods.py:create_kappas"), ("forward/inverse", S+"wavelet_methods.py:axisymmetric_wavelet_forward,axisymmetric_wavelet_inverse")],
  ["wavelet_methods.*", "functions.AxisymmetricWavelets", "functions.AxisymmetricWaveletCoefficients*"])
p("C09", "Slepian wavelets reconstruct every Slepian-domain signal exactly",
  "For every region size, dilation parameter and minimum scale, the Slepian wavelet transform of any signal's Slepian coefficients followed by its inverse returns the coefficients up to the Shannon number, including signals that are zero or sparse in Slepian space. "
  "The wavelet coefficients at scale j are the signal's coefficients weighted by the j-th generating function, reported in scale order with only scales beyond the last non-zero one left out. "
  "The Slepian wavelet and Slepian wavelet-coefficient functions select the scale they are asked for.",
  ["inputs", "configurations"], "all Shannon numbers 1..L^2, B>=2, j_min, complex/real/sparse signals, all scales",
  "Tests use one dense signal per region (unavailable offline); sparse signals were reconstructed wrongly.",
  [S+"wavelet_methods.py", S+"functions/slepian_wavelets.py", S+"functions/slepian_wavelet_coefficients_africa.py", S+"functions/slepian_wavelet_coefficients_south_america.py"],
  [("forward with trailing-scale removal", S+"wavelet_methods.py:slepian_wavelet_forward,find_non_zero_wavelet_coefficients"), ("inverse", S+"wavelet_methods.py:slepian_wavelet_inverse")],
  ["wavelet_methods.slepian_wavelet_forward/inverse", "functions.SlepianWavelets", "functions.SlepianWaveletCoefficients*"])
p("C10", "Mesh basis functions are the Laplacian eigenfunctions and transform exactly",
  "For every triangle mesh and number of basis functions, the basis consists of that many lowest eigenpairs of the cotangent Laplacian of the (upsampled) mesh, in ascending order and orthonormal over the vertices (one quarter of the vertices by default), and the region holds exactly the vertices inside the configured box. "
  "The mesh forward transform gives the inner products with the basis, the inverse sums the basis, and any signal in the span of the basis is recovered by forward then inverse.",
  ["inputs", "configurations"], "all meshes (bundled and generated), sizes of basis, regions, signals",
  "Tests check orthonormality and one round trip on one bundled mesh.",
  [S+"_mesh_methods.py", S+"meshes/mesh.py", S+"harmonic_methods.py", S+"meshes/mesh_basis_functions.py", S+"meshes/mesh_field.py"],
  [("shift-invert eigensolver and normalisation", S+"_mesh_methods.py:mesh_eigendecomposition"), ("transforms", S+"harmonic_methods.py:mesh_forward,mesh_inverse")],
  ["meshes.Mesh", "harmonic_methods.mesh_forward/mesh_inverse", "meshes.MeshBasisFunctions", "meshes.MeshField"])
p("C11", "Mesh Slepian functions solve the concentration problem and transform exactly",
  "For every mesh, basis size and region, the mesh Slepian functions are orthonormal combinations of the mesh basis that solve the concentration eigenproblem over the region's vertices, with eigenvalues in descending order within [0, 1], and the Shannon number is the rounded basis size times the fraction of vertices in the region. "
  "The forward transform gives the inner products for each of the three input forms (Fourier coefficients, vertex values, vertex values restricted to the region divided by the eigenvalue), the inverse recovers any signal in the span of the first Shannon-number functions, and the mesh Slepian wavelets reconstruct every signal's Slepian coefficients. "
  "Every mesh Slepian function kind is built from these transforms of the mesh field, the basis or the wavelets, and masking a mesh signal gives the transform of its values at the region's vertices.",
  ["inputs", "configurations"], "all meshes, basis sizes, regions, signals and wavelet parameters",
  "Tests use one bundled mesh and one signal.",
  [S+"meshes/mesh_slepian.py", S+"meshes/_mesh_slepian_decomposition.py", S+"slepian_methods.py", S+"_slepian_arbitrary_methods.py"],
  [("parallel matrix fill", S+"meshes/mesh_slepian.py:_create_D_matrix"), ("decomposition", S+"meshes/_mesh_slepian_decomposition.py")],
  ["meshes.MeshSlepian", "slepian_methods.slepian_mesh_forward/slepian_mesh_inverse", "meshes.MeshSlepian*"])
p("C12", "Noise is scaled to the requested SNR, symmetric, reproducible and additive",
  "For every signal (harmonic, Slepian or on a mesh) and requested SNR, the noise standard deviation is the one the SNR formula prescribes from the signal's power and number of coefficients, and scaling the signal or changing the SNR rescales the noise accordingly. "
  "The same call always produces the same noise, harmonic noise is that of a real field, and Slepian and mesh noise is the projection of white noise onto the Slepian functions or basis. "
  "A noised function holds its clean coefficients plus exactly that noise, keeps the clean coefficients and reports the SNR achieved by the noise.",
  ["inputs", "histories"], "all signals, SNR values, bandlimits, regions and function kinds, repeated calls",
  "Tests only check that noise changes one signal.",
  [S+"noise.py", S+"functions/flm.py", S+"functions/fp.py", S+"meshes/mesh_harmonic_coefficients.py", S+"meshes/mesh_slepian_coefficients.py"],
  [("fixed-seed Gaussian draw scaled by sigma", S+"noise.py:_create_noise,_create_slepian_noise,_create_mesh_noise"), ("bookkeeping", S+"functions/coefficients.py")],
  ["noise.compute_snr", "noise.compute_sigma_noise", "functions.*(noise=...)", "meshes.*(noise=...)"])
p("C13", "Denoising thresholds remove exactly the samples below the threshold",
  "For every set of wavelet or Slepian coefficients, per-scale deviations and threshold level, hard thresholding transforms each (wavelet) scale to samples, zeroes exactly the samples whose magnitude is below the level times that scale's deviation, keeps the others unchanged and transforms back; the harmonic variant leaves the scaling coefficients untouched. "
  "A zero threshold therefore returns harmonic signals unchanged and an unbounded one removes the thresholded scales. "
  "The per-scale deviation is the noise deviation times the norm of the wavelet, weighted pointwise by the Slepian functions where they are used.",
  ["inputs"], "all coefficient stacks, deviations (scalar per scale or per sample), levels, regions and meshes",
  "No test covers denoising.",
  [S+"noise.py"],
  [("hard thresholding", S+"noise.py:harmonic_hard_thresholding,slepian_wavelet_hard_thresholding,slepian_function_hard_thresholding,slepian_mesh_hard_thresholding"), ("deviations", S+"noise.py:compute_slepian_mesh_sigma_j")],
  ["noise.*_hard_thresholding", "noise.compute_slepian_mesh_sigma_j"])
p("C14", "Catalogue functions have their documented coefficients and a truthful real flag",
  "For every bandlimit and parameter choice, each analytic function on the sphere (Dirac delta, Gaussian, harmonic Gaussian, elongated and squashed Gaussians, identity, spherical harmonics, axisymmetric wavelets, ridgelets, and the Slepian function, Dirac delta, identity and wavelets) has exactly the coefficients of its documented definition and the documented spin. "
  "A function marked real has coefficients with the conjugate symmetry of a real field (so that real-field synthesis loses nothing), and building the same function twice gives the same coefficients.",
  ["inputs", "configurations"], "all functions, bandlimits and parameters (including non-integers), all regions",
  "Tests touch default parameters of a few functions and never the formulas.",
  [S+"functions/gaussian.py", S+"functions/harmonic_gaussian.py", S+"functions/elongated_gaussian.py", S+"functions/squashed_gaussian.py", S+"functions/ridgelets.py", S+"functions/spherical_harmonic.py", S+"functions/slepian.py", S+"functions/slepian_dirac_delta.py"],
  [("per-class coefficient construction", S+"functions/*.py:_create_coefficients")],
  ["sleplet.functions.*.coefficients/.reality/.spin"])
p("C15", "Invalid parameters are rejected; command-line and keyword arguments agree",
  "For every function on the sphere or a mesh, integer extra arguments give the same object as the corresponding keyword arguments (powers of ten for the Gaussian widths and frequency), and a wrong number of them is rejected, as are any given to functions that take none. "
  "Degrees, orders, ranks, scales and regions outside their documented range are rejected with an error and never produce a function, while every value inside is accepted. "
  "Arguments left out take the defaults shown in the documentation, and a region left out is that of South America.",
  ["inputs", "configurations"], "all functions, argument lists of any length and values inside, on and beyond each limit",
  "Tests check one out-of-range rank.",
  [S+"functions/*.py", S+"meshes/*.py"],
  [("argument parsing", S+"functions/*.py:_setup_args"), ("field validators", S+"functions/*.py:_check_*")],
  ["constructors of sleplet.functions.* and sleplet.meshes.*"])
p("C16", "Earth and CMB data products follow the source data",
  "For every source data set, the Earth coefficients at a bandlimit are the mirrored (conjugated) source truncated to that bandlimit with negative orders filled in for a real field, so a lower bandlimit is a prefix of a higher one; smoothing multiplies degree l by exp(-l^2 sigma^2) with sigma = pi/(s L). "
  "The CMB map is a real field drawn reproducibly with the source power spectrum. "
  "The Africa and South America masks are the non-negative land samples of the rotated Earth within the documented angular distance, the maps equal the rotated Earth inside the mask and vanish outside before band-limiting, and the Slepian, noise and wavelet variants of a region are computed from that map and refuse any other region.",
  ["inputs", "configurations"], "all topographies and spectra, bandlimits and smoothing factors",
  "The tests that use this data fail offline and only look at non-equality.",
  [S+"_data/create_earth_flm.py", S+"_data/create_wmap_flm.py", S+"_smoothing.py", S+"_mask_methods.py", S+"functions/africa.py", S+"functions/south_america.py"],
  [("loading and symmetry fill", S+"_data/create_earth_flm.py:create_flm"), ("masks", S+"_mask_methods.py:_create_africa_mask,_create_south_america_mask")],
  ["functions.Earth, Wmap, Africa, SouthAmerica, NoiseEarth, Slepian{Africa,SouthAmerica,...}"])
p("C17", "Saved eigensolutions never change the answer",
  "For every history of building Slepian functions, meshes and mesh Slepian functions with different regions, bandlimits, orders and basis sizes in one data directory, and after any interruption or loss of the saved files, the eigenvalues and the eigenvectors up to the Shannon number are those of the requested problem, exactly as if computed with an empty directory. "
  "A damaged saved file is either recomputed or reported as an error, never used to return a wrong solution, and saved files are written only inside the user's data directory.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of constructions with near-identical parameters, interleaved with deletion, truncation and write failures of saved files",
  "Tests build each object once in a fresh directory.",
  [S+"slepian/slepian_polar_cap.py", S+"slepian/slepian_limit_lat_lon.py", S+"slepian/slepian_arbitrary.py", S+"meshes/mesh_slepian.py", S+"_mesh_methods.py", S+"_data/setup_pooch.py"],
  [("file name encodes the problem", S+"slepian/*.py:_create_matrix_location"), ("load or recompute", S+"slepian/*.py:_solve_eigenproblem")],
  ["constructors with a shared data directory"])
p("C18", "Data files are found on the remote first, then locally, else recomputed",
  "For every combination of remote registry contents, local files and connectivity, looking up a data file returns the fetched remote copy when the registry lists it, otherwise the local copy if one exists, otherwise nothing (and the product is then computed). "
  "The remote registry is loaded at most once per process, only when first needed and never at import, and being unable to reach it does not prevent the use of local files or change later lookups.",
  ["inputs", "histories", "fault_sequences"], "all registries, local directories, connection failures and lookup sequences",
  "Tests look up one known and one unknown file, with the network.",
  [S+"_data/setup_pooch.py"],
  [("lazy registry", S+"_data/setup_pooch.py:_lazy_load_registry"), ("lookup order", S+"_data/setup_pooch.py:find_on_pooch_then_local")],
  ["find_on_pooch_then_local"])
p("C19", "Parallel workers do not change results, lose errors or leak memory",
  "For every number of CPUs requested and problem size, the eigensolutions are the same as with one worker, every matrix element is assigned to exactly one worker, and an error in any worker reaches the caller instead of producing a solution or a saved file. "
  "Shared memory is released after every successful construction.",
  ["inputs", "configurations", "fault_sequences", "schedules"], "NCPU from 1 to beyond the problem size, all problem sizes, a fault injected into any worker call",
  "Tests check the split of one array; worker errors were discarded silently.",
  [S+"_parallel_methods.py", S+"slepian/slepian_polar_cap.py", S+"slepian/slepian_arbitrary.py", S+"meshes/mesh_slepian.py"],
  [("chunking", S+"_parallel_methods.py:split_arr_into_chunks"), ("shared memory", S+"_parallel_methods.py")],
  ["split_arr_into_chunks", "Slepian constructors under NCPU"])
p("C20", "Sphere plots show the given field faithfully",
  "For every field, bandlimit and option, the plotted surface samples the requested part (real, imaginary, absolute or sum) of the same bandlimited field at the plotted points of the unit sphere at the documented resolution, closed in longitude. "
  "Normalised plots are an affine rescaling to [0, 1] attaining both ends (constants to one, zero to one half), unnormalised ones keep the values with a symmetric colour range given by the amplitude or the largest magnitude; samples outside a requested region, and only those, are blanked. "
  "The file name records resolution, part and normalisation, and the maximum amplitude of a function is that of its plotted field.",
  ["inputs", "configurations"], "all fields (constant, zero, tiny, negative, complex), bandlimits, spins, regions and options",
  "Tests check the resolution table and one grid point.",
  [S+"plotting/_create_plot_sphere.py", S+"plot_methods.py", S+"_plotly_methods.py"],
  [("boost, part, normalise, close", S+"plotting/_create_plot_sphere.py:execute"), ("normalisation", S+"plot_methods.py:_normalise_function")],
  ["plotting.PlotSphere(...).execute (figure handed to plotly)", "plot_methods.find_max_amplitude", "plot_methods.calc_plot_resolution", "plot_methods.compute_amplitude_for_noisy_sphere_plots"])
p("C21", "Mesh plots show the given field faithfully",
  "For every mesh and vertex field, the plotted mesh has the mesh's geometry (with y and z exchanged) and colours each face with the average of its vertices, normalised to [0, 1] attaining both ends or left as is with a symmetric colour range given by the amplitude or the largest magnitude. "
  "With a region, exactly the faces having a vertex outside it are blanked. "
  "The camera and colour bar follow the mesh settings for the zoomed or default view, and the amplitude of a noised function is that of its clean field.",
  ["inputs", "configurations"], "all meshes, fields and options",
  "No test covers mesh plots.",
  [S+"plotting/_create_plot_mesh.py", S+"_mesh_methods.py", S+"_mask_methods.py", S+"plot_methods.py", S+"meshes/mesh.py"],
  [("face averaging and region on faces", S+"_mesh_methods.py,_mask_methods.py"), ("figure", S+"plotting/_create_plot_mesh.py:execute")],
  ["plotting.PlotMesh(...).execute (figure handed to plotly)", "plot_methods.compute_amplitude_for_noisy_mesh_plots"])
p("C22", "The sphere and mesh commands plot what the library computes",
  "For every accepted combination of command-line options, the figure shown by the sphere or mesh command is the one obtained by building the named function with those options through the library, rotating, translating (both at the nearest grid point, longitudes being periodic) or convolving it as asked, applying the requested Earth view, and plotting the result with the requested part, normalisation, upsampling, region and noise amplitude. "
  "A translation is annotated at its point unless annotations are turned off. "
  "Unknown functions, meshes, methods or maps are refused.",
  ["inputs", "configurations"], "all option combinations of both commands, for every function available offline or with generated data",
  "No test runs the commands.",
  [S+"_scripts/plotting_on_sphere.py", S+"_scripts/plotting_on_mesh.py", S+"_class_lists.py", S+"plot_methods.py"],
  [("argument handling and dispatch", S+"_scripts/plotting_on_sphere.py:main,plot"), ("mesh command", S+"_scripts/plotting_on_mesh.py:main,plot")],
  ["sphere and mesh console commands (figure handed to plotly)"])
p("C23", "Names distinguish the plots and files of different requests",
  "Two requests at the same bandlimit that differ in the function, in an argument of the function (a number rendered as a fraction; including the wavelet scale), in region (to the degree), noise, smoothing, rotation or translation by fractions of pi, convolution, or in the part, normalisation or upsampling of the plot, never share a name, and equal requests always do; the same holds for meshes and their zoom. "
  "Angles, degrees and multiples of pi in names are rendered as the reduced fraction or rounded degree of the value.",
  ["inputs"], "all pairs of requests reachable from the commands",
  "Tests check single examples of the helpers.",
  [S+"_string_methods.py", S+"functions/coefficients.py", S+"meshes/mesh_coefficients.py"],
  [("argument and angle rendering", S+"_string_methods.py")],
  ["Coefficients.name", "MeshCoefficients.name", "figure file name"])
p("C24", "Calls leave arguments and process unchanged, and equal calls agree",
  "No call of the library changes the arrays or objects it is given (a translated or convolved function only loses its real mark), nor the state of the process: its random generators, environment, working directory and floating-point error handling. "
  "Repeating a call with equal arguments gives the same result, also after the earlier result has been overwritten, and also in another process.",
  ["inputs", "histories"], "all public functions and constructors with any valid arguments, in any order and process",
  "Tests call each function once, on arguments that are not looked at again.",
  [S+"noise.py", S+"harmonic_methods.py", S+"slepian_methods.py", S+"wavelet_methods.py", S+"plot_methods.py", S+"functions/", S+"meshes/", S+"plotting/", S+"slepian/"],
  [("in-place operations and memos", S+"noise.py,slepian/_slepian_decomposition.py,meshes/_mesh_slepian_decomposition.py,_mask_methods.py"), ("random generators", S+"noise.py,_mesh_methods.py")],
  ["every public function and constructor: its arguments, its result and the process before and after"])
out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
