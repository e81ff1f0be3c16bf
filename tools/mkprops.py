import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
NOTEST="The only tests that run here construct single particles; "
add("C01","Underdamped Langevin steps follow the Bussi-Parrinello scheme",
 "In every step of the bussi-parinello integrator each particle undergoes a thermostat half step, velocity-Verlet with the forces at its old and new position, and a second thermostat half step, where a thermostat half step multiplies the momentum by c1=exp(-friction*dt/2) and adds sqrt((1-c1^2)*mass*kT) times a standard normal number. The normal numbers are drawn independently for every half step, particle and dimension, and the particle's own mass is used throughout. Adding, inserting, overwriting and removing particles affects exactly the addressed entry of the particle list, and a newly added particle rests at the given position with energy and forces of that position.",
 ["inputs","histories","configurations"],"all potentials, dimensions 1-3, masses, timesteps, frictions, temperatures, particle numbers, add/remove histories and step counts",
 NOTEST+"no test ever runs a step of the integrator, and the noise is a distribution, not a value.",
 ["bdld/actions/bussi_parinello_ld.py","bdld/particle.py"],[("two thermostat half steps around velocity Verlet","BussiParinelloLD.run"),("mass dependent noise amplitude","BussiParinelloLD.add_particle")],
 observe=["particle pos/mom/energy/forces before and after every step"])
add("C02","Overdamped Langevin steps follow Euler-Maruyama",
 "In every step of the overdamped integrator each particle's position changes by dt times the force at its old position plus sqrt(2*dt) times a standard normal number, drawn independently for every step, particle and dimension and regardless of the particle's mass. After the step the stored energy and forces are those of the new position, and the thermal energy of this dynamics is 1. Adding, inserting, overwriting and removing particles affects exactly the addressed entry of the particle list.",
 ["inputs","histories","configurations"],"all potentials, dimensions 1-3, timesteps, particle numbers, add/remove histories and step counts",
 NOTEST+"no test ever runs a step of the overdamped integrator.",
 ["bdld/actions/overdamped_ld.py","bdld/particle.py"],[("Euler-Maruyama update","OverdampedLD.run")],
 observe=["particle pos/energy/forces before and after every step"])
add("C03","Boundary conditions confine particles exactly as documented",
 "With a periodic or reflective boundary condition every particle is inside the closed potential range in every dimension after every step, however far the step would have carried it. Periodic wrapping changes a coordinate only if it is outside and then only by whole multiples of the range, and never changes momenta; the reflective condition moves an outside coordinate to the boundary it crossed and reverses exactly that momentum component, leaving all other components untouched. Without a boundary condition neither positions nor momenta are altered.",
 ["inputs","histories","configurations"],"all positions (inside, on, one ulp beyond, many ranges beyond), momenta, ranges, dimensions, potentials and step sequences",
 "The only boundary test (not runnable here) samples two positions per condition, each 0.1 outside.",
 ["bdld/potential/potential.py","bdld/actions/bussi_parinello_ld.py","bdld/actions/overdamped_ld.py","bdld/main.py"],
 [("apply_boundary_condition_reflective / _periodic","bdld/potential/potential.py"),("call between move and force evaluation","integrator run methods")],
 observe=["apply_boundary_condition calls","positions after each step"])
add("C04","Potentials return the documented energy and its exact negative gradient",
 "For every position the polynomial potential returns the sum of the given coefficients times the corresponding powers of the coordinates (coefficient i,j,k belongs to x^i y^j z^k, from the input or from a coefficient file whose row order, comments and extra columns do not matter), and the Mueller-Brown potential returns the documented four-term sum, its configured factor scaling all energy differences and forces of that instance only. The force is always the negative gradient of the energy, and evaluating energy and force together gives the same values as evaluating them separately. The reference surface is the energy at the requested points shifted so that its minimum is zero.",
 ["inputs","histories","configurations"],"all coefficient arrays in 1-3 dimensions, coefficient files, scaling factors, instance creation histories and positions",
 "Tests (not runnable here) evaluate one 2-d polynomial at one position and never the Mueller-Brown potential or a coefficient file.",
 ["bdld/potential/polynomial.py","bdld/potential/mueller_brown.py","bdld/potential/potential.py"],
 [("polyval/polyder","PolynomialPotential"),("coefficients_from_file","bdld/potential/polynomial.py"),("evaluate/energy/force","MuellerBrownPotential")],
 observe=["energy/force/evaluate return values"])
add("C05","The walker ensemble stays consistent at every point of a simulation",
 "Throughout a simulation, with any combination of dynamics, boundary conditions and birth-death moves, the number of walkers never changes, the mass of every walker stays the configured one and all coordinates of walkers keep the dimension of the potential. After the dynamics step and after the birth-death step of every time step the energy and forces stored with each walker are those of the potential at that walker's current position. Walkers never share state: changing one walker (by dynamics or directly) never changes another, including walkers that were created as copies.",
 ["histories","configurations"],"all simulations and all prefixes of them, including very frequent birth-death events",
 "No test runs dynamics together with birth-death events.",
 ["bdld/actions/birth_death.py","bdld/actions/bussi_parinello_ld.py","bdld/actions/overdamped_ld.py","bdld/main.py"],
 [("deepcopy of the duplicated walker","BirthDeath.perform_moves"),("energy/forces evaluated after the move","integrator run methods"),("shared particle list","setup_birth_death")],
 observe=["particle list after each action of each step"])
add("C06","Birth-death rates equal the documented formula for every ensemble",
 "The rate of each walker is the logarithm of the Gaussian kernel density estimate at its position (average over all walkers including itself, product of one-dimensional normalised Gaussians with the given bandwidths) plus, for the original and additive variants, its energy divided by kT, minus the average of this quantity over all walkers; the additive variant then adds the additive correction at the walker's position (zero outside the potential range). The multiplicative variant instead subtracts the logarithm of the kernel-smoothed equilibrium density before the average is removed. The rates do not depend on the order of the walkers and the density estimate is the same function for small and large (more than 10000) ensembles.",
 ["inputs","configurations"],"all ensembles (clustered, coincident, far apart, outside the range), dimensions, bandwidths, temperatures and variants",
 "Tests (not runnable here) check four fixed walkers with a formula copied from the code.",
 ["bdld/actions/birth_death.py"],[("calc_betas","BirthDeath"),("walker_density and its two implementations","bdld/actions/birth_death.py"),("calc_kernel","bdld/actions/birth_death.py")],
 observe=["calc_betas and walker_density return values"])
add("C07","Birth-death moves kill over-represented and copy under-represented walkers",
 "In a birth-death step every walker i (without recalculation: every walker that has not been replaced before in this step) triggers an event with probability 1-exp(-|rate_i|*dt*factor), dt being the time between birth-death steps: with a positive rate it is replaced by a copy of another walker, with a negative rate another walker is replaced by a copy of it. The other walker is chosen uniformly among all others, walkers are processed in random order, each replaced walker becomes an exact independent copy (position, momentum, mass, energy, forces) of its source at that moment, and nothing else changes. If probabilities are recalculated the rates of the current ensemble are used after every event, and the reported event list replays to exactly the resulting ensemble; birth-death steps happen at multiples of the stride and at no other time step.",
 ["inputs","schedules","histories","configurations"],"all ensembles, rates, random event orders, both recalculation modes, all strides and event factors",
 "One regression test (not runnable here) pins two events for one seed in one mode; direction, uniformity and probability are never checked.",
 ["bdld/actions/birth_death.py"],[("do_birth_death","BirthDeath"),("random_other","BirthDeath"),("perform_moves","BirthDeath")],
 observe=["ensemble before/after each birth-death step","returned event list"])
add("C08","Birth-death statistics account for every attempt and event",
 "The reported numbers are cumulative since the start: every walker counts as exactly one attempt per birth-death step, as a death attempt if its rate is positive and as a birth attempt otherwise, and every event counts as exactly one success of the kind (death or birth) that triggered it. Statistics are reported at every multiple of the statistics stride, as one line (time step, birth successes, birth attempts, death successes, death attempts) if a file is given and as matching counts, percentages and ratios on screen otherwise, and once at the end if no stride is given.",
 ["histories","configurations"],"all ensembles, event histories, strides, recalculation modes and output targets",
 "The test sets one counter by hand and prints it once.",
 ["bdld/actions/birth_death.py"],[("Stats","BirthDeath"),("counter updates","BirthDeath.do_birth_death")],
 observe=["stats file","stdout","stats counters after each step"])
add("C09","Equilibrium density and its kernel smoothing are correct on the grid",
 "The equilibrium density of a potential is, at every grid point, proportional to exp(-energy/kT) and sums with the volume element to one. Its kernel smoothing is, up to grid discretisation, the convolution with the normalised Gaussian of the given bandwidths over the potential range, and the additive correction is minus the logarithm of the ratio of smoothed to original density plus the average of that logarithm over the equilibrium density. Both live on the range of the potential and are at most 101 points fine per dimension when used for the rates.",
 ["inputs","configurations"],"all potentials, temperatures, ranges, bandwidths (isotropic and anisotropic) and grid sizes",
 "Tests (not runnable here) check one triangular density in 'valid' mode, not the mode that is used.",
 ["bdld/potential/potential.py","bdld/actions/birth_death.py","bdld/grid.py","bdld/main.py"],
 [("calculate_probability_density","Potential"),("dens_kernel_convolution, calc_additive_correction, nd_trapz","bdld/actions/birth_death.py"),("bd_prob_density","bdld/main.py"),("convolve, sparsify","bdld/grid.py")],
 observe=["grids returned by these functions and held by the birth-death action"])
add("C10","Trajectory files hold every stride-th step exactly once and nothing else",
 "After a simulation the file of walker i contains, for every time step that is a multiple of the stride and in increasing order, exactly one line with the time (step times timestep), the position of walker i at the end of that step and, if requested, its momentum, in the requested number format. This holds for every combination of number of steps, stride and write-stride, whether or not they divide each other, and any birth-death activity. The header names every column.",
 ["histories","configurations"],"all combinations of n_steps, stride, write-stride, momentum flag, dimensions, walker numbers and formats",
 "One test (not runnable here) evaluates the index arithmetic at a single point.",
 ["bdld/actions/trajectory_action.py","bdld/actions/action.py","bdld/main.py"],
 [("ring buffer row arithmetic","TrajectoryAction.run"),("get_valid_data","bdld/actions/action.py"),("last_write","TrajectoryAction.write")],
 observe=["trajectory files","walker states at the end of every step"])
add("C11","The histogram counts every sampled position exactly once",
 "At every update and at the end of a simulation the histogram equals the counts of the positions of all walkers at all time steps that are multiples of its stride since the start or the last reset, binned into equal bins over its range with positions outside ignored: no sample is lost, duplicated or invented. This holds for every combination of number of steps, strides, write-strides and reset steps, and whether or not trajectories or the histogram are written to file. Histogram files (one per write-stride with the step appended, written before a reset takes effect, and a final one) list the bin midpoints with these counts.",
 ["histories","configurations"],"all combinations of n_steps, histogram stride, trajectory stride/write-stride/filename, resets, bins, ranges and dimensions 1-3",
 "There is no test of the histogram or its action at all.",
 ["bdld/actions/histogram_action.py","bdld/histogram.py","bdld/actions/action.py","bdld/actions/trajectory_action.py"],
 [("get_traj_data","HistogramAction"),("add/clear","Histogram"),("get_valid_data","bdld/actions/action.py")],
 observe=["histogram data after each step","histogram files"])
add("C12","The free energy surface is -kT ln(counts), aligned to zero",
 "Whenever the free energy surface is calculated (at every multiple of its stride and at the end) its value in each histogram bin is minus kT times the logarithm of the current count, shifted so that the lowest value is zero, with infinity in empty bins and never NaN, kT being the thermal energy given for the surface. The histogram is not modified by this. Files are written at every multiple of the write-stride with the step appended and once at the end, and list the bin midpoints with the most recently calculated values.",
 ["inputs","histories","configurations"],"all histograms (empty, single-bin, sparse), temperatures, dimensions, strides and step counts",
 "There is no test of the free energy surface.",
 ["bdld/actions/fes_action.py","bdld/main.py","bdld/grid.py"],[("calculate_fes","bdld/actions/fes_action.py"),("run/final_run/write","FesAction")],
 observe=["fes grid after each step","fes files"])
add("C13","Free energy differences are correct and written exactly once",
 "Each reported free energy difference between state i and state 1 is -kT times the logarithm of the ratio of the Boltzmann weights exp(-F/kT), summed over all surface points whose bin midpoint lies in the closed rectangular region of the state, of the current surface, in any supported dimension. The file contains exactly one line per multiple of the stride in increasing order, with time and the differences for states 2, 3, ..., or a single line for the end of the simulation if no stride is given. This holds for every combination of number of steps, stride and write-stride, and the header names every column.",
 ["inputs","histories","configurations"],"all surfaces, state definitions, numbers of states, dimensions and n_steps/stride/write-stride combinations",
 "There is no test of delta F.",
 ["bdld/actions/delta_f_action.py","bdld/tools.py","bdld/actions/action.py","bdld/main.py","bdld/inputparser.py"],
 [("calculate_delta_f","bdld/actions/delta_f_action.py"),("pos_inside_ranges","bdld/tools.py"),("get_valid_data","bdld/actions/action.py")],
 observe=["delta F file","fes grid at each calculation"])
add("C14","The particle distribution counts walkers per state, once per stride",
 "Each line of the particle distribution holds the time step and, for every state in the given order, the number of walkers whose position lies in the closed rectangular region of that state at the end of that step. The file contains exactly one line per multiple of the stride in increasing order, or a single line for the end of the simulation if no stride is given. This holds for every combination of number of steps, stride and write-stride, and the header names every column and the state ranges.",
 ["inputs","histories","configurations"],"all ensembles incl. positions on state borders, overlapping states, dimensions and n_steps/stride/write-stride combinations",
 "There is no test of this action.",
 ["bdld/actions/particle_distribution.py","bdld/tools.py","bdld/actions/action.py"],
 [("count_particles","ParticleDistributionAction"),("pos_inside_ranges","bdld/tools.py"),("get_valid_data","bdld/actions/action.py")],
 observe=["particle distribution file","walker states at the end of every step"])
add("C15","Seeded runs are reproducible and output actions never alter the dynamics",
 "Two runs of the same input file in which all seeds are given (any non-negative integer, including 0) produce byte-identical output files, in every process and environment. Adding, removing or reconfiguring the output and analysis sections (trajectories, histogram, fes, delta-f, particle-distribution, birth-death statistics) never changes the motion of any walker. The seeds are honoured separately: changing only one of them changes only the random numbers of its own section.",
 ["configurations","histories"],"all inputs, seeds, and all subsets and settings of output sections",
 "No test runs a simulation twice or at all.",
 ["bdld/main.py","bdld/actions/birth_death.py","bdld/actions/bussi_parinello_ld.py","bdld/actions/overdamped_ld.py","bdld/actions/trajectory_action.py"],
 [("separate seeded generators","setup_ld, init_particles, setup_birth_death"),("analysis actions only read","bdld/actions")],
 observe=["all output files","walker states at every step"])
add("C16","No output is lost: existing files are kept, written data survives crashes",
 "A run never destroys data: every data file that exists under a name it writes is kept with unchanged content as a numbered backup (bck.N.name), over any number of repeated runs in the same directory. If a run is interrupted at any point, trajectory, delta-f, particle-distribution and birth-death statistics files contain everything up to the last multiple of their write interval before the interruption, and their content is a prefix of what the uninterrupted run writes. A run touches no files other than its own outputs and their backups.",
 ["crash_points","fault_sequences","histories"],"all interruption points, all pre-existing directory contents, any number of reruns",
 "No test writes to an existing file or interrupts a run.",
 ["bdld/actions/trajectory_action.py","bdld/actions/histogram_action.py","bdld/actions/fes_action.py","bdld/actions/delta_f_action.py","bdld/actions/particle_distribution.py","bdld/actions/birth_death.py"],
 [("initialize_file / backup_if_exists before creation","all writing actions"),("append mode and close per write","write methods")],
 observe=["directory contents before, after and at the interruption"])
add("C17","Invalid input is rejected with a clear error, valid input is parsed exactly",
 "Every valid input file is parsed to exactly the given values in the documented types, with documented defaults for omitted options, values from [DEFAULT] applying to all sections, lists split at commas and unknown options ignored. If a required section or option is missing, a value cannot be converted to its type (also within lists), a number violates its documented bounds, or a named choice (integrator, potential, boundary condition, initial distribution, approximation variant) does not exist, the program exits with status 1 and an error message naming the option or section, before any simulation step is made. State definitions whose minimum and maximum bounds differ in number or dimension, and kernel bandwidths that do not match the dimension of the potential, are rejected as well.",
 ["inputs","configurations"],"all input files: arbitrary combinations, omissions and malformed values of all options",
 "There is no test of the input parser, although it can be imported.",
 ["bdld/inputparser.py","bdld/main.py"],[("InputOption.parse","bdld/inputparser.py"),("Input.parse_*","bdld/inputparser.py"),("error handling","bdld/main.py main"),("min_max_to_ranges","bdld/inputparser.py")],
 observe=["parsed option dictionaries","exit status and stderr of the program"])
add("C18","The initial ensemble is exactly the one requested",
 "A simulation starts with exactly the requested number of walkers, at rest and with the requested mass. random-global draws positions independently and uniformly over the whole potential range, random-pos draws uniformly among the given positions only, and fractions-pos puts floor(fraction*number) walkers, fractions being normalised to sum one, on each given position and the whole remainder on the first. If the numbers of positions and fractions differ the input is rejected.",
 ["inputs","configurations"],"all numbers of walkers, positions, fractions (also absolute numbers), masses, ranges, dimensions and seeds",
 "There is no test of the particle initialisation.",
 ["bdld/main.py","bdld/inputparser.py"],[("init_particles","bdld/main.py"),("parse_particles","bdld/inputparser.py")],
 observe=["particle list before the first step"])
add("C19","Grids keep points, values and arithmetic aligned in every dimension",
 "A grid's points are all combinations of its evenly spaced axes in row-major order, so that value and point arrays always correspond element by element, in 1, 2 and 3 dimensions; grids can be made from point numbers or from step sizes, the latter starting at the lower bound and covering the range (or, if shrinking, being the largest such grid inside it). Arithmetic, exp and log act elementwise, return new grids and leave their operands unchanged, and combining grids with different points or data of the wrong size is refused; two grids compare equal exactly if their points and their values are equal. Linear interpolation returns the stored values at the points, is exact for linear data and returns the fill value outside; sparsifying keeps ranges and interpolated values; convolutions (same, valid) are the discrete sums times the volume element, located at the points they belong to, and refuse different step sizes; written files list every point with its value in order.",
 ["inputs","configurations"],"all dimensions, point numbers (unequal per dimension), ranges, step sizes, data and operators",
 "Tests (not runnable here) use 1-d or square 2-d grids only.",
 ["bdld/grid.py","bdld/histogram.py"],[("points/axes/data","Grid"),("_perform_arithmetic_operation","Grid"),("from_stepsizes, sparsify, convolve, write_to_file","bdld/grid.py")],
 observe=["grid attributes and return values","written grid files"])
add("C20","Simulations sample the Boltzmann distribution",
 "After equilibration the walkers of a Langevin simulation are distributed, up to timestep and statistical error, according to exp(-energy/kT) in position (kT = 1 for overdamped dynamics) and, for the underdamped dynamics, with momentum variance mass*kT in every dimension, independent of position. Birth-death moves with the multiplicative variant leave an equilibrated ensemble in equilibrium and, with every variant, move the population of an ensemble with wrong state populations towards the equilibrium populations. Reported free energy differences converge to those of the potential.",
 ["histories","configurations"],"all potentials, temperatures, masses, frictions and birth-death settings with a stable timestep",
 "The guarantee is statistical and about long histories; no test runs a simulation.",
 ["bdld/actions/bussi_parinello_ld.py","bdld/actions/overdamped_ld.py","bdld/actions/birth_death.py","bdld/main.py"],
 [("thermostat","BussiParinelloLD"),("Euler-Maruyama","OverdampedLD"),("birth-death dynamics","BirthDeath")],
 observe=["ensemble averages over long runs"])
add("C21","The program simulates exactly the system the input file describes",
 "A run of the program performs exactly n_steps time steps with the integrator, timestep, friction, temperature, potential, boundary condition, masses, birth-death stride, bandwidth, variant, factor and recalculation mode of the input file, and every optional section is active if and only if it is present. Within each time step the dynamics come first, then birth-death moves, and every output of that step describes the state after both; approximation-variant takes precedence over correction-variant. A successful run ends with exit status 0 after all final output is written.",
 ["configurations","inputs"],"all input files accepted by the program",
 "No test executes the program; the wiring of options to components is untested.",
 ["bdld/main.py","bdld/inputparser.py","bdld/__main__.py","bin/bdld_run"],[("main, setup_*","bdld/main.py"),("fixed order of actions","main loop")],
 observe=["walker states after every action of every step of a program run","exit status"])
add("C22","Plots show the calculated free energy surface and disturb nothing",
 "If a plot-filename is given, the free energy surface is plotted at every multiple of the plot-stride (into a file with the step inserted before the extension) and once at the end (into the file of the given name), without needing a user. A plot in one dimension shows the most recently calculated surface and the reference surface of the potential over the bin midpoints; a plot in two dimensions shows the surface as an image with the first dimension horizontally and the second vertically. With a plot-domain exactly this range of free energies is shown. Plotting changes neither the motion of the walkers nor any other output.",
 ["inputs","configurations"],"all histograms, strides and plot options in one and two dimensions",
 "No test makes a plot; what a plot shows depends on the whole history of the run and the options.",
 ["bdld/actions/fes_action.py","bdld/main.py"],[("FesAction.plot, plot_fes","bdld/actions/fes_action.py"),("setup_fes (reference)","bdld/main.py")],
 observe=["figure objects at the moment they are saved (curves, image, limits, texts)","plot files and all other output"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
