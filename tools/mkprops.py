#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as Python so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))

p("C01","Finite-difference first derivative is sixth-order exact at every node",
  "For every grid size the finite-difference option supports (at least 9 points) and every interval, the first radial derivative of any polynomial of degree six or less sampled on the grid is reproduced at every node, the three nodes next to each boundary included, up to rounding. The result is linear in the data, depends on the interval only through its length, and leaves the input data unchanged.",
  ["inputs","configurations"],"all grid data, all intervals, all node positions; grid sizes in a stated set up to the production size",
  "the two unit tests sample one function on [0,1] with 33 and 65 points and compare an averaged norm",
  ["Source/finite_diff.cpp"],[("FD::der","Source/finite_diff.cpp")],["dv"])
p("C02","Finite-difference second derivative is exact to sixth order at every node",
  "For every supported grid size (at least 9 points) and every interval, the second radial derivative of any polynomial of degree seven or less sampled on the grid is reproduced at every node, boundary nodes included, up to rounding. The result is linear in the data, scales with the inverse square of the spacing, and leaves the input data unchanged.",
  ["inputs","configurations"],"all grid data, all intervals, all node positions; grid sizes in a stated set up to the production size",
  "the unit test samples one function on [0,1] with 33 and 65 points and compares an averaged norm",
  ["Source/finite_diff.cpp"],[("FD::der2","Source/finite_diff.cpp")],["ddv"])
p("C03","Finite-difference dissipation filter damps and never amplifies",
  "The finite-difference filter leaves the four points next to each boundary untouched and reproduces any polynomial of degree seven or less exactly up to rounding. In the interior it acts as one fixed symmetric convolution on the unfiltered data, whose gain lies between 0 and 1 for every wavelength, decreases towards short wavelengths, and removes the grid-scale sawtooth completely.",
  ["inputs","configurations"],"all grid data, all wavelengths, all positions; grid sizes in a stated set up to the production size",
  "the unit test compares the total variation of one rough sample before and after filtering",
  ["Source/finite_diff.cpp"],[("FD::filter","Source/finite_diff.cpp")],["v"])
p("C04","Chebyshev coefficients represent the sampled function, both ways",
  "Transforming grid values to Chebyshev coefficients yields the coefficients of the interpolant: summing coefficient times Chebyshev polynomial at each grid point gives the values back, for all data and every grid size of at least three points. Transforming coefficients to points evaluates exactly that sum, so each transform inverts the other.",
  ["inputs","configurations"],"all data and coefficient vectors; grid sizes in a stated set",
  "the unit test makes one round trip of tan(x) with 32 points; a pair of transforms wrong by compensating factors passes it",
  ["Source/cheb.cpp"],[("Cheb::to_ch / Cheb::to_po","Source/cheb.cpp")],["ch","po"])
p("C05","Chebyshev derivative is exact for resolved polynomials on any interval",
  "For every grid size of at least four points and every interval, the Chebyshev derivative of any polynomial whose degree is at most the number of points minus three is exact at every grid point up to rounding. It is linear in the data, annihilates constants, and leaves the input data unchanged.",
  ["inputs","configurations"],"all polynomials of the stated degree, all intervals; grid sizes in a stated set",
  "the unit test differentiates x sin x on [0,1] with 32 points only",
  ["Source/cheb.cpp"],[("Cheb::der","Source/cheb.cpp")],["dv"])
p("C06","Chebyshev low-pass filter only damps high modes",
  "The Chebyshev filter multiplies each Chebyshev coefficient of the data by a fixed weight between 0 and 1 that never increases with the mode number; the constant mode has weight one, modes below a quarter of the grid size are unchanged to one part in a million, and the highest mode is damped.",
  ["inputs","configurations"],"all data; all modes; grid sizes in a stated set",
  "the unit test compares the total variation of one rough sample",
  ["Source/cheb.cpp"],[("Cheb::filter","Source/cheb.cpp")],["v"])
p("C07","Radial grids span the requested interval in order",
  "For every interval and every number of points, the finite-difference nodes are equally spaced and increasing from the lower to the upper bound, and the Chebyshev nodes are the extrema of the top Chebyshev polynomial mapped affinely onto the interval, decreasing from the upper to the lower bound. The reported point count and bounds are those requested.",
  ["inputs","configurations"],"all intervals, all nodes; point counts in a stated set",
  "tests only use [0,1] and never look at the nodes",
  ["Source/finite_diff.cpp","Source/cheb.cpp"],[("FD::pt, Cheb::pt and constructors","Source/finite_diff.cpp, Source/cheb.cpp")],["pt","lower","upper","n"])
p("C08","Grid storage layout is a bijection that matches its coordinate tables",
  "For every grid shape and both angular storage orders, the map from (radius, theta, phi) indices to storage positions is one-to-one onto the whole array, its angular part is the same order the spherical transforms use, and likewise for the two-dimensional maps. The coordinates reported for a storage position, spherical or Cartesian, are those of the grid point stored there.",
  ["inputs","configurations"],"all index tuples and all grid shapes (as integers, sizes below 2^20), all radial intervals; coordinate tables for small shapes",
  "the grid tests are not part of the build, use square angular grids and one storage order",
  ["Source/grid.hpp","Source/grid.cpp","Source/sphere.hpp"],[("indx_* maps, coordinate tables","Source/grid.hpp, Source/grid.cpp"),("Sphere::indx","Source/sphere.hpp")],["indx_R_th_ph","R_th_ph","x_y_z","th_ph","R_l","n_l"])
p("C09","Reading or writing one grid row touches exactly that row",
  "Copying a radial, polar, azimuthal or two-dimensional slice out of a grid function returns exactly the values of that slice, and copying a slice in overwrites exactly that slice and nothing else, for every grid shape, slice position and content. Writing a slice and reading it back returns what was written.",
  ["inputs","configurations"],"all contents, all slice positions; non-square shapes in a stated set; both storage orders",
  "no test calls the row accessors directly, and the grid tests only use equal numbers of polar and azimuthal points",
  ["Source/grid.hpp"],[("get_row_* / set_row_*","Source/grid.hpp")],["get_row_*","set_row_*"])
p("C10","Radial derivatives on the grid obey the compactification chain rule",
  "The derivative with respect to the physical radius r equals the derivative with respect to the compactified radius R times (1-R/L)^2, and the second r-derivative equals its square times the second R-derivative minus (2/L)(1-R/L)^3 times the first, with R = r/(1+r/L) and L the compactification length. This holds at every grid point, for all data, intervals and compactification lengths and both radial discretisations, and the conversion from R to r inverts the compactification.",
  ["inputs","configurations"],"all data, all intervals and compactification lengths; small grid shapes; both radial discretisations",
  "the grid tests are not built and only check that one error decreases between two resolutions",
  ["Source/grid.cpp","Source/grid.hpp"],[("set_partial_r, set_partial2_r, R_to_r","Source/grid.cpp, Source/grid.hpp")],["set_partial_R","set_partial_r","set_partial2_r","R_to_r"])
p("C11","Angular derivatives have the exact spherical-harmonic spectrum",
  "For every real field made of spherical harmonics up to the configured maximal l and m, the angular Laplacian multiplies each (l,m) part by -l(l+1) and the azimuthal derivative is the phi-derivative of that field, the highest configured l and m included, up to rounding. The raising and lowering operators map Y_lm to sqrt((l-m)(l+m+1)) Y_l,m+1 and sqrt((l+m)(l-m+1)) Y_l,m-1.",
  ["inputs","configurations"],"all band-limited fields; small angular resolutions; both storage orders",
  "the sphere tests are not built and each uses one low-order field, far below the highest configured mode",
  ["Source/sphere.cpp"],[("laplace_beltrami, partial_phi, raise, lower","Source/sphere.cpp")],["laplace_beltrami","partial_phi","raise","lower"])
p("C12","Angular gradient-squared operator equals |grad f|^2 on the unit sphere",
  "For every real field made of spherical harmonics up to the configured maxima, the angular gradient-squared equals (df/dtheta)^2 + (df/dphi)^2/sin^2(theta) at every grid point, up to rounding; it is therefore never negative and quadratic in the field.",
  ["inputs","configurations"],"all band-limited fields with equal maximal l and m; small angular resolutions; both storage orders",
  "the sphere tests are not built and sample one field",
  ["Source/sphere.cpp"],[("sphereX","Source/sphere.cpp")],["sphereX"])
p("C13","Angular low-pass filter only damps high harmonics",
  "The angular filter multiplies each spherical-harmonic coefficient by a fixed weight between 0 and 1 that never increases with l or m: the spherical mean is kept, the lower quarter of the spectrum is unchanged to one part in a million, and the highest configured l is suppressed by at least a factor of a million.",
  ["inputs","configurations"],"all band-limited fields; small angular resolutions; both storage orders",
  "the sphere tests are not built and compare one total variation",
  ["Source/sphere.cpp"],[("Sphere::filter","Source/sphere.cpp")],["filter"])
p("C14","Power spectrum sums |f_lm|^2 over all m; Y_lm synthesis is normalised",
  "For every real field made of spherical harmonics up to the configured maxima, the angular power spectrum at each reported l equals the sum over all m, negative and positive, of |f_lm|^2. Synthesising a single (l,m) coefficient gives the orthonormal Condon-Shortley harmonic (for m>0 twice its real part), and real and complex transforms to and from coefficients invert each other.",
  ["inputs","configurations"],"all band-limited fields; small angular resolutions; both storage orders",
  "the sphere tests are not built; none checks the power spectrum",
  ["Source/sphere.cpp"],[("power_spectrum, compute_ylm, to_Ylm, to_Sph","Source/sphere.cpp")],["power_spectrum","compute_ylm"])
p("C15","3D grid operators act slice by slice",
  "On a three-dimensional grid function, each angular operator (azimuthal derivative, Laplacian, gradient-squared, power spectrum) at a given radius depends only on the data at that radius and equals the two-dimensional operator applied to that sphere; each radial derivative along a ray depends only on that ray and equals the one-dimensional operator applied to it. No input is modified and every output point is written.",
  ["inputs","configurations"],"all grid data; small non-square grid shapes; both radial discretisations and storage orders",
  "the grid tests are not built and compare averaged norms",
  ["Source/grid.cpp"],[("set_partial_phi, set_spherical_lap, set_sphereX, set_partial_R, set_angular_power_spectrum, set_n_l_coef","Source/grid.cpp")],["set_*"])
p("C16","Grid filter applies the angular and radial filters, boundaries kept",
  "Filtering a grid function applies the angular low-pass filter on every sphere and then the radial filter along every ray, except that the innermost and outermost radial values keep their angularly filtered value. It applies with either radial discretisation and to all data.",
  ["inputs","configurations"],"all grid data; small non-square grid shapes; both radial discretisations and storage orders",
  "the grid tests are not built and only require that total variation decreases",
  ["Source/grid.cpp"],[("Grid::filter","Source/grid.cpp")],["filter"])
p("C17","Time derivatives satisfy the scalar wave equation on Kerr",
  "For all fields f, p = df/dv, all radii including the horizon and infinity, all angles, masses, spins up to extremal, kinetic couplings and potentials, the computed time derivatives are df/dv = p and the dp/dv for which Box f + (k'/2k)(grad f)^2 - V'/k = 0 holds on the Kerr metric in ingoing Eddington-Finkelstein coordinates. Here k = k0 + km1/(1+f) + k1 f + (k2/2) f^2 and V = (V2/2) f^2 + (V3/6) f^3 + (V4/24) f^4.",
  ["inputs","configurations"],"all field values, couplings, masses, spins and grid intervals; small grid shapes",
  "nothing tests the equations of motion; they are not part of the build",
  ["Source/scalar_eom.cpp"],[("Scalar_eom constructor and set_k","Source/scalar_eom.cpp")],["set_k"])
p("C18","One time step is exactly classical fourth-order Runge-Kutta",
  "One time step first filters both fields and then advances them by the classical fourth-order Runge-Kutta combination of the time derivatives with the configured step size, for every right-hand side, field content and step size. The values at the start of the step are kept apart from the advanced ones, and advancing to the next step makes the new values the current ones.",
  ["inputs","histories"],"all right-hand sides (uninterpreted), all fields and step sizes; one step from an arbitrary state",
  "nothing tests the integrator",
  ["Source/scalar_eom.cpp","Source/field.cpp"],[("time_step, set_level","Source/scalar_eom.cpp"),("Field::shift","Source/field.cpp")],["np1","n"])
p("C19","Energy density is the stress tensor contracted with the slice normal",
  "For all fields, couplings, masses, spins up to extremal, radii and angles, the computed energy density equals n^mu n^nu T_mu_nu for the unit normal n of the v = const. slices of Kerr in ingoing Eddington-Finkelstein coordinates. With a positive kinetic function and a non-negative potential it is therefore never negative.",
  ["inputs","configurations"],"all field values, couplings, masses, spins and grid intervals; small grid shapes",
  "nothing tests the energy density",
  ["Source/scalar_eom.cpp"],[("set_rho and its coefficients","Source/scalar_eom.cpp")],["rho"])
p("C20","Initial pulse is compact, scaled to its amplitude, and directed",
  "The initial field is the configured spherical harmonic times a smooth pulse that vanishes at every grid point outside the configured radial range, is non-zero at every point inside it with either radial discretisation, and is scaled so that its largest magnitude on the grid is the configured amplitude. The initial time derivative is plus the radial derivative of that field for ingoing data, minus it for outgoing data, and zero for time-symmetric or unknown directions, with the same scaling.",
  ["inputs","configurations"],"all pulse ranges, amplitudes, grid intervals; modes and grid shapes in a stated set; every direction string in a stated set",
  "nothing tests the initial data",
  ["Source/initial_data.cpp"],[("ID::compact_pulse","Source/initial_data.cpp")],["f","p"])
p("C21","Parameters are read by exact name, from anywhere in the file",
  "Each run parameter takes the value that follows its own exact name at the start of a line of the parameter file, whatever the order of the lines, whatever other lines are present and however names share prefixes; the first such line counts. If a needed name is missing the program reports it and terminates with a failure status before doing any work.",
  ["inputs"],"all parameter values, all line orders, all contents of surrounding lines within stated length bounds",
  "nothing tests the parameter reader",
  ["Source/params.cpp","Source/params.hpp"],[("Params constructor and reader","Source/params.cpp")],["Params getters"])
p("C22","Derived run parameters respect geometry and step-size limits",
  "For all physical settings of the run script, the inner edge of the grid is the compactified radius of the outer horizon M+sqrt(M^2-a^2), the outer edge is the compactification length, and the pulse range is scaled by the horizon radius. The time step obeys the angular limit 6/max(nlat,nphi)^2 and, with finite differences, cfl/(nx-1), or 6/max(nx,nlat,nphi)^2 with Chebyshev; the step count covers the requested time to within one step, and the saving interval is at least one step and yields at least the requested number of snapshots, or one per step when there are fewer steps than that.",
  ["inputs","configurations"],"all masses, spins up to extremal, lengths, resolutions, times and CFL numbers (reals / integers)",
  "nothing tests the run scripts; the build only checks that they parse",
  ["sim_class.py"],[("Sim.set_derived_params, Sim.compactification","sim_class.py")],["sim attributes"])
p("C23","Every parameter the solver reads is delivered by the run script",
  "For every setting of the run script, the parameter file it writes contains each name the solver looks up and the solver then uses exactly the value the script set or derived, including list-free and text values. The command it launches passes that parameter file and the run's output directory to the solver, in both the local and the batch mode.",
  ["inputs","configurations"],"all numerical settings (symbolic values), both discretisations and launch modes",
  "nothing runs the scripts together with the solver's reader",
  ["sim_class.py","runscript_template.py","Source/params.cpp"],[("Sim.write_sim_params, Sim.launch_run","sim_class.py"),("Params","Source/params.cpp")],["params.txt","command line"])
p("C24","Saved tables pair each value with the coordinates of its own point",
  "Each saved table is written to the file named after the field, the kind of table and the save index, starts with the column labels when requested, and has exactly one row per grid point or (radius, l) pair, each giving that point's own coordinates and its own value: the field value itself, or the base-10 logarithm of the power floored at -16. The Cartesian table contains exactly the points whose value magnitude and radius lie strictly within the requested ranges.",
  ["inputs","configurations"],"all field contents and selection ranges; small non-square grid shapes; both storage orders and discretisations",
  "nothing tests the output code",
  ["Source/io.cpp"],[("Csv::write, write_R_psl, write_n_psl, write_x_y_z","Source/io.cpp")],["csv files"])
p("C25","The run saves the right state at the right times",
  "A run saves the initial state as snapshot 0 and then snapshot j after exactly j times the saving interval steps, for every multiple below the configured step count, each holding the field and the energy density of the state advanced by that many steps, and prints the matching time. The state after s steps is the initial data advanced s times, with no step skipped, repeated or saved stale.",
  ["histories","configurations"],"all amplitudes / field contents within a small run; step counts and saving intervals in a stated range",
  "nothing runs the program",
  ["Source/main.cpp","Source/field.cpp"],[("main loop","Source/main.cpp"),("Field::shift","Source/field.cpp")],["csv files","stdout"])
p("C26","Results do not depend on thread count or schedule",
  "In every parallel section of the code, two threads never access the same memory location with at least one writing, except through a declared reduction, so every operator, time step and diagnostic gives the same result for any number of threads and any schedule (up to the rounding order of sums).",
  ["schedules","inputs"],"every pair of distinct iterations of each parallel loop, symbolic loop index; every pair of parallel sections; small inner sizes",
  "tests are single runs with one schedule, and the parallel code is not built",
  ["Source/grid.cpp","Source/scalar_eom.cpp","Source/field.cpp"],[("OpenMP regions","Source/grid.cpp, Source/scalar_eom.cpp, Source/field.cpp")],["all outputs"])
p("C27","Diagnostics compute the stated norms",
  "The independent residual is the root-mean-square over all grid points of p - (f_new - f_old)/dt, and the total variation is the sum over all points with a forward neighbour in each direction of the Euclidean length of the three forward differences, divided by the number of points, for all data, step sizes and grid shapes.",
  ["inputs","configurations"],"all data and step sizes; small non-square grid shapes; both storage orders",
  "no test calls the residual; the grid tests are not built",
  ["Source/grid.cpp"],[("norm_indep_res, total_variation","Source/grid.cpp")],["return values"])
p("C28","Operators never touch memory they do not own and release what they take",
  "For every supported grid shape and all data, every operator, constructor and destructor reads and writes only inside live arrays, never uses uninitialised values, and frees each temporary exactly once, so a run of any length uses bounded memory.",
  ["inputs","configurations","histories"],"grid shapes in stated ranges including the smallest supported; one call from an arbitrary state",
  "tests use a few sizes without memory checking",
  ["Source/finite_diff.cpp","Source/cheb.cpp","Source/sphere.cpp","Source/grid.cpp","Source/scalar_eom.cpp","Source/initial_data.cpp","Source/io.cpp","Source/field.cpp"],[("all operators","Source/*.cpp")],["memory"])
p("C29","Operator objects are independent of each other",
  "Several radial or spherical operator objects, of equal or different size, can be created, used and destroyed in any order; each gives the same results as if it were the only one, and each destroys only its own transform plans.",
  ["histories"],"all data; all create/use/destroy interleavings of two objects within a stated length",
  "each unit test creates a single object per process",
  ["Source/cheb.cpp","Source/sphere.cpp"],[("constructors and destructors","Source/cheb.cpp, Source/sphere.cpp")],["der","filter","to_ch"])
p("C30","Evaluations are free of hidden history",
  "Evaluating the time derivatives, the energy density, a derivative, a transform or a filter gives the same result whatever was evaluated before with the same objects, and evaluating leaves its input fields unchanged unless the operation is defined to act in place.",
  ["histories","inputs"],"all fields for the earlier and the later call; pairs of calls in either order",
  "tests call each operator once per object",
  ["Source/scalar_eom.cpp","Source/grid.cpp","Source/sphere.cpp","Source/cheb.cpp","Source/finite_diff.cpp"],[("work arrays of Scalar_eom","Source/scalar_eom.cpp")],["set_k","set_rho"])
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
