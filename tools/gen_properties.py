#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})
NOIN = "The stable test suite samples a single orbital-element conversion; every simulation test needs data files that are absent and fixes one planetary system, one step size and 200 steps."

add("C01", "Interrupting and resuming a simulation never changes its outcome",
 "Stopping a simulation at any step, saving a recovery snapshot, restoring it and continuing yields exactly the same sequence of states (positions, velocities, spins, times, snapshot counters) and exactly the same history bytes as the uninterrupted run. This holds for every integrator and coordinate choice, every combination of physical effects, and any number of interruptions.",
 ["histories", "configurations", "crash_points"], "all simulated systems x integrators x effect sets x sets of interruption steps",
 "Tests never save and restore in the middle of a run; whether some hidden integrator or effect state is lost depends on the step, the integrator and the enabled effects.",
 ["src/integrator/output.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
 [("binary snapshot of the whole integrator", "integrator/output.rs write_recovery_snapshot/restore_snapshot"), ("re-initialisation on restart", "integrator/*.rs initialize_physical_values")],
 ["state after restore and further iterations", "history file bytes"])
add("C02", "Recovery snapshots store and restore the complete simulation state",
 "Writing a recovery snapshot and restoring it gives back the same kind of integrator with the same state: bit-identical for the binary format and identical up to the last digits of decimal floating point for the JSON format, including integrator-internal compensation terms. Writing over an existing snapshot keeps the previous one as a backup, and a file that is not a complete snapshot is refused instead of being restored as something else.",
 ["inputs", "configurations", "fault_sequences"], "all reachable simulation states x formats x file contents (including truncated or corrupted ones)",
 "Tests write JSON cases at time zero only, and never check truncated, foreign or mid-run snapshots.",
 ["src/integrator/output.rs"],
 [("format by extension, integrator tried in turn", "integrator/output.rs restore_snapshot"), ("rename of the previous snapshot", "integrator/output.rs write_recovery_snapshot")],
 ["restored integrator's serialised state and concrete type", "files beside the snapshot"])
add("C03", "History output is complete, exactly scheduled and faithful to the state",
 "The history file is a sequence of fixed-size little-endian records, one per particle in index order for every due output time, written before the step that starts there: the initial state, then for the fixed-step schemes the first step at or after each multiple of the output period (every step if the period is shorter than the step), for the adaptive scheme the first step at least one period after the previous output. Nothing is written beyond the end of the run. Every record carries the time, the time step and the position, velocity, spin, mass, radius and effect quantities the simulation had at that moment, and the reported number of snapshots always matches the file length.",
 ["inputs", "histories", "configurations"], "all systems, steps, output periods (including periods smaller than, equal to and not multiples of the step) and durations",
 "Tests write to a throw-away file with a period longer than the run and never read it back.",
 ["src/integrator/output.rs", "src/integrator/whfast.rs", "src/integrator/leapfrog.rs", "src/integrator/ias15.rs"],
 [("periodic history write before each step", "integrator/*.rs iterate"), ("record layout", "integrator/output.rs write_historic_snapshot")],
 ["history file parsed independently", "snapshot counter"])
add("C04", "A crash at any point leaves files from which the run can be continued",
 "If the process dies at any instant (including part way through writing history or a recovery snapshot; power loss of the machine is out of scope), restoring the latest intact snapshot and continuing produces the same history file as a run that never crashed: excess or torn history after the snapshot is discarded and rewritten. A history file shorter than the snapshot requires is refused and left untouched, never silently continued.",
 ["crash_points", "histories", "fault_sequences"], "all crash instants (every write boundary and torn writes) x systems x integrators",
 "No test kills a run or truncates its files.",
 ["src/integrator/output.rs", "src/main.rs"],
 [("history truncated to the snapshot's record count", "integrator/output.rs get_universe_history_writer"), ("history flushed before the snapshot is written", "integrator/output.rs write_recovery_snapshot"), ("previous snapshot kept as backup", "integrator/output.rs write_recovery_snapshot")],
 ["files after the crash", "history bytes after resuming"])
add("C05", "The command line runs, resumes and reconfigures simulations as requested",
 "Starting from a case file runs it to its time limit, writes the history and recovery snapshots at the configured periods and exits successfully; it refuses to run when either output file already exists, leaving both untouched. Resuming continues the given snapshot to the same final history as an uninterrupted run. The resume options for a new time limit and new output periods take effect and change nothing else about the trajectory, and a limit on execution time only makes the run stop early after saving a snapshot from which it can be resumed; it does not otherwise change what is written.",
 ["inputs", "configurations", "histories"], "all command lines (subcommand, option presence and values) x simulations x pre-existing files",
 "The binary is never executed by the tests.",
 ["src/main.rs", "src/integrator/whfast.rs", "src/integrator/leapfrog.rs", "src/integrator/ias15.rs"],
 [("argument parsing and main loop", "main.rs"), ("overrides on resume", "integrator/*.rs set_time_limit/set_snapshot_periods")],
 ["exit status and files of the real binary"])
add("C06", "An isolated two-body system follows its exact Keplerian orbit",
 "For any two bodies interacting only by gravity, every integrator reproduces the analytic Keplerian motion about the fixed centre of mass: the Wisdom-Holman scheme to round-off at any step size, eccentricity, inclination and bound or unbound orbit (in Jacobi and WHDS coordinates for any mass ratio, in democratic heliocentric ones for a companion of negligible mass), the adaptive scheme to near round-off, and the leap-frog and the massive democratic heliocentric case with an error that falls with the square of the step. One step always ends, however large it is and whatever finite state it starts from.",
 ["inputs", "configurations"], "all masses, orbital elements, step sizes, integrators, coordinate choices and durations",
 NOIN, ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
 [("universal-variable Kepler step", "integrator/whfast.rs kepler_individual_step"), ("predictor-corrector", "integrator/ias15.rs"), ("drift-kick-drift", "integrator/leapfrog.rs")],
 ["inertial positions and velocities after integration"])
add("C07", "Gravity-only runs conserve momentum, angular momentum and energy",
 "With every additional effect disabled, total linear momentum, the centre of mass and the total orbital angular momentum stay constant to round-off for any number of bodies and any integrator, and the total energy shows no drift: it is constant to round-off for the adaptive scheme and its error is bounded and shrinks with the square of the step for the symplectic schemes. Spins stay unchanged.",
 ["inputs", "configurations", "histories"], "all multi-planet systems x integrators x steps x durations",
 NOIN, ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
 [("symplectic kick/drift splitting and coordinate transforms", "integrator/whfast.rs"), ("pairwise gravity", "particles/universe.rs gravity_calculate_acceleration")],
 ["inertial state after every step"])
add("C08", "All integrators converge to the same trajectory, with or without effects",
 "Given the same system and enabled effects, the Wisdom-Holman scheme in each of its coordinate systems, the leap-frog scheme and the adaptive scheme converge to the same positions, velocities and spins as their step shrinks. The errors fall with the square of the step for gravity and for the Wisdom-Holman schemes with effects, and at least in proportion to the step for the leap-frog with effects and for velocity-dependent relativity among several planets in Jacobi coordinates; every scheme stops at the requested time limit without overshooting it.",
 ["inputs", "configurations"], "all systems x effect sets x pairs of integrators x steps",
 "Tests compare each integrator only with its own recorded output, so a bias common to the recording is invisible.",
 ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
 [("splitting of additional forces around the gravity step", "integrator/*.rs iterate"), ("spin integration", "integrator/*.rs integrate_spin")],
 ["final states and times"])
add("C09", "Physics does not depend on orientation, or on the order of the particles",
 "Rotating a whole system (positions, velocities, spins) by any rotation rotates every later state by the same rotation (by a rotation about the z axis when an effect defines the reference plane: a disk, or creep and frequency-dependent tides of coplanar systems), and listing the same particles in a different order gives the same motion for each particle, whichever index the most massive or central body has. A uniform shift of the input positions or velocities changes nothing, since the simulation works relative to its centre of mass. Newtonian gravity, tides and flattening have no length, mass or time of their own: rescaling all of them so that the gravitational constant keeps its value rescales the motion.",
 ["inputs", "configurations"], "all systems x effect sets x integrators x rotations, translations, boosts and permutations",
 "Tests fix the star at index 0 with spins along z (a few permutation cases exist, with one system).",
 ["src/particles/universe.rs", "src/effects", "src/integrator"],
 [("host particle split out of the particle array", "particles/universe.rs split_at_mut"), ("vector formulas in the effects", "effects/*")],
 ["states after integration in both settings"])
add("C10", "Computed gravity is Newton's law, with exactly the requested terms left out",
 "The gravitational acceleration computed for every particle equals the Newtonian sum over all other particles, minus exactly the terms an integrator asks to leave out (nothing; the pair of the central body and the first planet; or every pair involving the central body), so that the mass-weighted sum over all particles always vanishes.",
 ["inputs", "configurations"], "all particle sets, masses, positions, most-massive index and ignored-term modes",
 NOIN, ["src/particles/universe.rs"], [("pairwise loop with ignored terms", "particles/universe.rs gravity_calculate_acceleration")],
 ["inertial accelerations"])
add("C11", "Collisions, tidal disruption and ejections stop the run exactly when they occur",
 "A run stops with an error naming the particles when two bodies come closer than the sum of their radii, when a body passes inside the Roche limit of a more massive one, or when a body is farther from the most massive one than the allowed maximum distance. It never stops for any of these reasons otherwise, for any pair and particle order.",
 ["inputs", "configurations"], "all pairs of particles, orders, masses, radii and separations around each threshold",
 "No test brings two bodies near any threshold.",
 ["src/particles/universe.rs", "src/integrator/output.rs"],
 [("distance checks in the gravity loop", "particles/universe.rs gravity_calculate_acceleration"), ("Roche radii", "particles/universe.rs calculate_roche_radiuses")],
 ["panic or success of stepping a generated configuration"])
add("C12", "A universe is built consistently or rejected",
 "Building a universe from particles places them about their common centre of mass (zero total momentum and mass-weighted position) while preserving all relative positions and velocities, identifies the most massive body and the central body of each effect, and derives each particle's moment of inertia and spin angular momentum from its inputs. An effect for which no central body is given is switched off. Inconsistent set-ups (two central bodies for one effect, relativity centred on a body that is not the most massive, tides and flattening centred on different bodies, more than ten particles, creep mixed with another tide or flattening model on one body or with a different viscosity) are rejected, and consistent ones are never rejected.",
 ["inputs", "configurations"], "all lists of particles and effect assignments",
 "Tests only build consistent set-ups with the star first.",
 ["src/particles/universe.rs", "src/particles/particle.rs"],
 [("constructor checks", "particles/universe.rs Universe::new"), ("derived quantities", "particles/particle.rs Particle::new")],
 ["constructed particles' state", "panic on construction"])
add("C13", "Equilibrium tides follow the constant-time-lag model",
 "With constant-time-lag tides enabled, the extra acceleration of every particle and the torque on every spin equal the model's closed-form expressions (conservative and dissipative radial part and the lagged transverse part, raised on both the central and the orbiting bodies) for any orbit, spin vectors, dissipation factors and Love numbers, and are proportional to the dissipation factor and its scale. Bodies that take no part in tides neither feel nor cause them.",
 ["inputs", "configurations"], "all geometries, spins, parameters, host positions in the list and participating subsets",
 NOIN, ["src/effects/tides/common.rs", "src/effects/tides/constant_time_lag.rs"],
 [("radial and orthogonal force components", "effects/tides/constant_time_lag.rs"), ("acceleration and torque assembly", "effects/tides/common.rs")],
 ["additional accelerations and angular momentum derivatives"])
add("C14", "Internal effects obey action and reaction and conserve angular momentum",
 "Tides and rotational flattening act between bodies of the system: the mass-weighted sum of the accelerations they cause is zero at every instant, and the torque they exert on the spins balances the change of orbital angular momentum, so that total (orbital plus spin) angular momentum is conserved throughout a run. With several planets each planet's contribution is balanced with the central body.",
 ["inputs", "configurations", "histories"], "all systems, spins, parameters, effect sets and integrators",
 NOIN, ["src/effects/tides/common.rs", "src/effects/rotational_flattening/common.rs", "src/particles/universe.rs"],
 [("reaction on the host", "effects/*/common.rs"), ("torque on spins", "effects/*/common.rs"), ("frame correction", "particles/universe.rs apply_acceleration_corrections")],
 ["instantaneous sums", "total angular momentum along runs"])
add("C15", "Rotational flattening follows the oblate-spheroid model",
 "With oblate-spheroid flattening enabled, the acceleration and spin torques equal the closed-form quadrupole expressions for bodies flattened by their own rotation, for any spin vectors (including zero), Love numbers, radii and geometry, and vanish for bodies that take no part.",
 ["inputs", "configurations"], "all geometries, spins including zero and aligned ones, Love numbers, participating subsets",
 NOIN, ["src/effects/rotational_flattening/common.rs", "src/effects/rotational_flattening/oblate_spheroid.rs"],
 [("radial and orthogonal components", "effects/rotational_flattening/oblate_spheroid.rs"), ("assembly", "effects/rotational_flattening/common.rs")],
 ["additional accelerations and angular momentum derivatives"])
add("C16", "Relativistic corrections follow the selected post-Newtonian model",
 "With relativity enabled, accelerations equal the first-order post-Newtonian expressions of the selected formulation (Kidder 1995, Anderson 1975, Newhall 1983), all formulations agree for a light planet around a heavy star, and the pericentre of such an orbit advances by the Schwarzschild rate at first order. Bodies that take no part are unaffected, the corrections scale with GM/(rc^2), and they do not depend on which Newtonian terms the integrator computes elsewhere.",
 ["inputs", "configurations"], "all masses, orbits, spins, formulations, integrators",
 NOIN, ["src/effects/general_relativity.rs"],
 [("Kidder 1995", "effects/general_relativity.rs calculate_kidder1995*"), ("Anderson 1975", "effects/general_relativity.rs calculate_anderson1975*"), ("Newhall 1983", "effects/general_relativity.rs calculate_newhall1983*")],
 ["additional accelerations", "orbit orientation along runs"])
add("C17", "Magnetic braking slows spins and only spins, at the documented rate",
 "A body with wind braking loses spin angular momentum along its own spin direction at the rate K*sqrt((R/Rsun)/(M/Msun)) times its spin rate times the square of the smaller of its spin rate and the saturation rate, continuously across saturation; it never reverses the spin, affects no orbit and no other body's spin, and acts identically whatever other effects are enabled. At every instant each body's spin equals its angular momentum divided by its moment of inertia.",
 ["inputs", "configurations", "histories"], "all spins, wind factors, saturation rates, integrators, other effects on or off",
 "Wind is never enabled in any test.",
 ["src/effects/wind.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
 [("wind torque", "effects/wind.rs calculate_wind_factor"), ("spin integration", "integrator/*.rs integrate_spin")],
 ["angular momentum derivative", "spin along runs"])
add("C18", "Disk migration acts inside the disk, during its lifetime, at the model rate",
 "With a gas disk around the central body, each participating planet outside the disk's inner edge feels migration, eccentricity and inclination damping accelerations given by the model's time scales, which follow from the local surface density (decaying exponentially with the disk's lifetime and cut off exponentially at the outer edge), and none inside the inner edge. Damping always opposes the migration velocity, radial velocity and vertical velocity respectively, and the central body takes up the reaction.",
 ["inputs", "configurations", "histories"], "all disk properties, orbits, times before and after the lifetime, distances on both sides of the edges",
 "One disk with one planet is simulated for 16 days in a test that cannot run here.",
 ["src/effects/disk.rs"], [("time scales", "effects/disk.rs"), ("acceleration", "effects/disk.rs")],
 ["additional accelerations at generated times"])
add("C19", "Evolving bodies follow their tabulated model at every moment",
 "For an evolving body, the radius, gyration radius, Love number and dissipation used at any time are the linear interpolation in time of the selected model table (chosen by model and mass, and clamped to its ends), regardless of the order in which times are requested; bodies that do not evolve keep their input values. Changes of moment of inertia conserve spin angular momentum, and simulations starting before or ending after the table are rejected, also when the end of a running simulation is moved later.",
 ["inputs", "histories", "configurations"], "all tables, masses, initial times, query sequences",
 "Tests need data files absent here and only advance 16 days, within a single table interval.",
 ["src/effects/evolution.rs", "src/particles/universe.rs", "src/tools.rs"],
 [("table lookup with a moving window", "effects/evolution.rs get_evolution_value / linear_interpolation"), ("application to particles", "effects/evolution.rs calculate_particles_evolving_quantities")],
 ["particle quantities at generated times"])
add("C20", "Creep tides follow the coplanar creep model",
 "With coplanar creep tides or creep flattening, the extra accelerations and torques follow the creep-tide equilibrium shape for the body's viscosity, spin and eccentricity, in both the slow and the fast rotation branches: they stay in the orbital plane, vanish at infinite separation, tend to the static figure for vanishing viscosity, and dissipate (the secular torque drives the spin towards pseudo-synchronous rotation). Bodies on unbound orbits take no part in the periodic deformation.",
 ["inputs", "configurations"], "all coplanar orbits, viscosities, spins and eccentricities within the expansion's validity",
 "One system with one viscosity is recorded.",
 ["src/effects/tides/creep_coplanar.rs", "src/effects/rotational_flattening/creep_coplanar.rs"],
 [("equilibrium shape with Cayley coefficients", "effects/tides/creep_coplanar.rs calculate_particle_shape")],
 ["additional accelerations and torques"])
add("C21", "Frequency-dependent tides follow the tabulated complex Love number",
 "With frequency-dependent (Kaula) tides, the tidal force is linear in the tabulated complex Love number and obeys action and reaction; for a coplanar prograde orbit it gives no torque for a vanishing imaginary part and equals the Darwin-Kaula expansion of the tidal potential with the Love number interpolated at each excitation frequency; for an equator inclined to the orbit it is the sum over all degree-2 modes (every m, p, q) with the published inclination and eccentricity functions, apart from the deviations recorded as known finding. Tables are used for the planet or the star they are given for, and bodies on unbound orbits take no part.",
 ["inputs", "configurations"], "all Love-number tables, coplanar orbits, spins and eccentricities within the expansion's validity",
 "Two systems with a single table are recorded.",
 ["src/effects/tides/kaula.rs"], [("mode expansion and table lookup", "effects/tides/kaula.rs")],
 ["additional accelerations and torques"])
add("C22", "Orbital elements and Cartesian coordinates are inverse to each other",
 "Converting any elliptic orbit from elements to Cartesian position and velocity and back returns the same elements (angles modulo a full turn), and converting any bound state to elements and back returns the same state; the Cartesian state satisfies the vis-viva and angular momentum relations for any conic, including parabolic and hyperbolic orbits. Spin vectors, pseudo-synchronous periods and interpolation helpers obey their defining formulas for all arguments.",
 ["inputs"], "all eccentricities (circular, elliptic, parabolic, hyperbolic), orientations, anomalies and masses",
 "One element set is converted in one direction in the only test that runs.",
 ["src/tools.rs"], [("Kepler equation solvers", "tools.rs kepler_solution_for_*"), ("conversions", "tools.rs calculate_cartesian_coordinates/calculate_keplerian_orbital_elements")],
 ["return values"])
add("C23", "Effects are independent: switches isolate them and contributions add up",
 "The extra acceleration and torque with several effects enabled is the sum of those with each enabled alone, an effect that is switched off globally or on every particle has no influence at all on the run whatever parameters it carries, and particles that opt out of an effect move as if it did not act on them.",
 ["inputs", "configurations"], "all systems x subsets of effects x parameters of the disabled ones",
 "Tests switch single effects on for one system, never compare combinations.",
 ["src/particles/universe.rs", "src/effects"],
 [("accumulation of effect accelerations", "particles/universe.rs calculate_additional_effects"), ("consider_effects flags", "particles/universe.rs")],
 ["additional accelerations", "states after integration"])
add("C24", "Tides dissipate energy and drive systems towards equilibrium",
 "With dissipative tides, the total mechanical energy (orbital plus rotational) of an isolated star-planet pair never increases on average while total angular momentum is conserved: orbit-averaged changes of spin, semi-major axis and eccentricity equal those of the constant-time-lag theory (Hut 1981), so a planet inside (outside) the co-rotation radius migrates in (out). The reported rate of energy change equals the power actually dissipated in the planet.",
 ["inputs", "histories"], "all star-planet pairs, spins, eccentricities and dissipation factors",
 "Tests record 16 days of evolution, far too short and without any energy accounting.",
 ["src/effects/tides/common.rs", "src/effects/tides/constant_time_lag.rs"],
 [("force and torque signs", "effects/tides"), ("denergy_dt", "effects/tides/common.rs calculate_denergy_dt")],
 ["orbit-averaged energy, spin and orbit changes"])
add("C25", "Cases written by the Python interface start the same simulation as built in Rust",
 "A case file written by the Python package for any system of particles, effects and integrator is accepted by the Rust program and denotes the same initial state (positions, velocities, spins, derived quantities, effects, hosts and run settings) and leads to the same motion as building that system directly in Rust; systems the program refuses are refused. The Python history reader recovers every complete snapshot the Rust program wrote, with orbital elements that match the recorded states.",
 ["inputs", "configurations"], "all systems expressible in the Python interface x integrators",
 "Python tests compare with recorded files for a few systems and cannot run here; nothing runs both halves together.",
 ["posidonius/particles/universe.py", "posidonius/particles/particle.py", "posidonius/effects", "posidonius/integrator", "posidonius/analysis/history.py", "src/integrator/output.rs"],
 [("dictionary mirroring the Rust structures", "posidonius/particles/*.py, posidonius/effects/*.py"), ("JSON restore", "integrator/output.rs restore_snapshot")],
 ["restored state", "records read back"])
add("C26", "Python orbital tools agree with their definitions and with Rust",
 "The Python helpers that users build and analyse systems with (orbital elements to Cartesian and back, spin vectors, pseudo-synchronous period, mass-radius relations, centre of mass, interpolation, search for mean-motion resonances) give the same values as their definitions or Rust counterparts for all arguments, alone or in arrays, and invert each other where they are inverses (except the mean anomaly of an exactly parabolic orbit). The package finds its data files wherever it is installed.",
 ["inputs"], "all arguments accepted by the helpers",
 "Python tests sample a handful of element sets and cannot run here.",
 ["posidonius/tools.py", "src/tools.rs"], [("Kepler solvers and conversions", "posidonius/tools.py")],
 ["return values"])
add("C27", "Forces and torques depend only on the present state",
 "The accelerations, torques, dissipated heat and evolving quantities computed for a system depend only on its present time, positions, velocities and spin angular momenta (and the fixed parameters), never on which states were evaluated before or in which order; and asking for only the torques or only the accelerations gives the same values as asking for both.",
 ["inputs", "histories"], "all systems and combinations of effects x sequences of states and of partial evaluations",
 "Tests evaluate each system along one short trajectory; something left over from an earlier evaluation is absorbed in the recorded values.",
 ["src/particles/universe.rs calculate_additional_effects", "src/effects/tides/common.rs", "src/effects/rotational_flattening", "src/effects/disk.rs", "src/effects/general_relativity.rs", "src/effects/wind.rs", "src/effects/evolution.rs"],
 [("initialisation of every effect before it is evaluated", "src/particles/universe.rs initialize"), ("cached forces, shapes and table positions", "kaula_tidal_force, creep shapes, evolver left_index")],
 ["accelerations, torques and heat after different histories"])
add("C28", "Motion without dissipation is reversible, dissipation is not",
 "Without dissipation (gravity, and for the Wisdom-Holman schemes also conservative tides, rotational flattening and the relativity of a single planet), running any number of fixed steps, reversing all velocities and spins and running the same steps again leads back to the initial state to round-off. At any instant, the part of the tidal and flattening accelerations and torques that survives a reversal of all motions is the one without dissipation, and the forces of a disk and the torque of a wind turn round entirely.",
 ["inputs", "histories"], "all systems x fixed-step integrators x numbers of steps",
 "Tests only run forwards.",
 ["src/integrator/whfast.rs", "src/integrator/leapfrog.rs", "src/effects"],
 [("symmetric composition of kicks and drifts, implicit midpoint", "src/integrator/whfast.rs"), ("drift-kick-drift", "src/integrator/leapfrog.rs")],
 ["states after running forwards and backwards"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
