"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, PL = 'AMAT/vehicle.py', 'AMAT/planet.py'
AP, OR, MA = 'AMAT/approach.py', 'AMAT/orbiter.py', 'AMAT/maneuver.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, reason=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _na=reason, _level=level))


I, C, H = 'inputs', 'configurations', 'histories'

prop('P01', 'Atmosphere look-ups reproduce the loaded profile in SI units',
     'After a profile is loaded, density, temperature, pressure and sound speed at any altitude are the interpolation of the tabulated columns (in SI, for every column layout and altitude unit) with the stated fill values outside the table; radius-based and non-dimensional forms are the same values. The scalar density agrees with the array one inside the model, is the surface reference density below the surface and zero above the model top; the scale height is the density integral from the altitude up over the density difference.',
     [I, C], 'every profile table (arbitrary entries, column map, unit), every altitude inside and outside the table',
     'The tests load a few shipped tables and look at a few altitudes; they never quantify over tables, column layouts, or the region outside the table.',
     [PL], [('table loading and interpolants', PL + ': loadAtmosphereModel'), ('scalar/vector look-ups', PL + ': density, rho, densityvectorized, ...')],
     'Bounded symbolic execution over tables of 2-4 rows; scipy interpolation is modelled by its contract.')
prop('P02', 'Body constants are consistent and nondimensionalisation is an exact round trip',
     'Each supported body defines every constant the simulation needs, close to the published values of that body, with derived reference speed, time and spin rate consistent with its radius, gravity and rotation, and an unknown body is rejected. Converting states, single or series, to non-dimensional form and back returns the original.',
     [I, C], 'every supported body, every state', 'Tests check literal constants of a few bodies; the round trip must hold for every state.',
     [PL], [('constants', PL + ': __init__'), ('scaling', PL + ': nonDimState, dimensionalize, computeH, computeR')],
     'All eight bodies and arbitrary states, exact in real arithmetic.')
prop('P03', 'Monte Carlo density files yield the profile the dispersion describes',
     'A dispersed density profile drawn from a file equals the mean shifted by the requested number of standard deviations towards the high or low bound, for the requested profile of the file, plus that file profile\'s own perturbation where the perturbed form is asked for. Reading a file yields heights in metres and the low, mean and high bounds and perturbations of its columns.',
     [I, C], 'every multi-profile file, profile number, and sigma', 'The tests read one shipped file at one sigma.',
     [PL], [('file readers', PL + ': loadMonteCarloDensityFile2/3'), ('dispersion', PL + ': pSigmaFunc, nSigmaFunc, loadAtmosphereModel5/6')],
     'Stacked files of 2-3 profiles x 2-3 rows with arbitrary entries.')
prop('V01', 'Gravity is the gradient of the oblate potential',
     'The gravity components used by the equations of motion are the gradient of the central potential with the body\'s second and third zonal harmonics, resolved along local axes and then along the velocity, normal and lateral directions. They reduce to inverse-square attraction when the harmonics vanish.',
     [I, C], 'every radius, latitude, flight-path and heading angle, every body', 'Tests compare single numbers at one state.',
     [V], [('components', V + ': grbar, gthetabar, gphibar, gsbar, gnbar, gwbar')], 'Exact over the reals, any state; the expected gradient is derived symbolically from the potential.')
prop('V02', 'Equations of motion obey Newton\'s law in the rotating frame',
     'For every state the returned derivatives are those of a point mass moving under gravity, lift and drag in a uniformly rotating planet-fixed frame, with kinematics consistent with the spherical coordinates. Both solver forms give the same derivatives, and downrange and heat-load integrate the ground speed and heat rate.',
     [I, C], 'every state away from the poles and vertical flight, any rotation rate, bank angle and density', 'Tests integrate two trajectories and compare end numbers.',
     [V], [('right-hand sides', V + ': EOM, EOM2'), ('rotation terms', V + ': cfvbar, cfgammabar, cfpsibar, cogammabar, copsibar')],
     'Exact over the reals; the oracle is Newton\'s law in inertial Cartesian coordinates projected on the local frame. The documented regularisation of the heading equation is taken as specified.')
prop('V03', 'Aerodynamic forces follow the vehicle definition',
     'Lift and drag accelerations equal dynamic pressure times reference area times coefficient over mass, with lift-to-drag ratio and ballistic coefficient as given to the vehicle and lift resolved by bank angle. Scalar, vectorised and non-dimensional forms agree, with constant or Mach-dependent drag coefficient.',
     [I, C], 'every vehicle, state, bank angle and drag law', 'Tests check one vehicle at one state; Mach-dependent drag and array forms are unchecked.',
     [V], [('forces', V + ': L, D, Lbar, Dbar, a_s, a_n, a_w and vectorised forms'), ('drag law', V + ': setCDMachFunction, computeMach')], 'Any state; arrays of length 1-3.')
prop('V04', 'Reported loads and pressures are the physical ones',
     'Reported g-load is the Euclidean norm of the three aerodynamic acceleration components over standard gravity; dynamic pressure, stagnation pressure, Mach number and stagnation temperature follow from the same density, speed and gas properties. Unit conversions for display are exact and monotone.',
     [I, C], 'every trajectory sample, bank angle and gas', 'Tests check lengths and one peak value with lift vector in plane, where an error in the lateral part is invisible.',
     [V], [('loads', V + ': computeAccelerationLoad, computeAccelerationDrag'), ('pressures', V + ': computeDynPres, computeStagPres, computeStagTemp')], 'Arrays of length 1-3 with arbitrary entries.')
prop('V05', 'Aeroheating follows the published correlations and is never negative',
     'Convective, radiative and total stagnation-point heating are non-negative, vanish with zero density, total equals the sum of its parts, and convective heating scales with the square root of density over nose radius and the cube of speed. A nose-radius sweep reports, per radius, the peak and the time integral for exactly that radius and leaves the vehicle unchanged.',
     [I, C], 'every body, density, speed and nose radius', 'Tests evaluate a single trajectory; regime limits of the radiative correlations are hit by few samples.',
     [V], [('correlations', V + ': qStagConvective, qStagRadiative, qStagTotal'), ('sweep', V + ': computeHeatingForMultipleRN')], 'All bodies, arrays of length 1-3.')
prop('V06', 'Trajectories are classified as skip-out or trapped and cut at that event',
     'A trajectory that rises above the skip-out altitude and never goes below the surface is a skip-out, cut at its first sample above that altitude; any other trajectory that falls below the trap altitude is trapped, cut at its first sample below it; the rest is kept whole. Truncation keeps exactly the samples before the cut in every series.',
     [I, H], 'every altitude history and thresholds', 'Two sample trajectories are classified in tests.',
     [V], [('classifier', V + ': classifyTrajectory, truncateTrajectory')], 'Histories of 1-4 (thorough 5) samples with arbitrary altitudes.')
prop('V07', 'Propagation reports one consistent, SI-correct history from the given state',
     'Propagating from a state integrates exactly that state (converted once), and the reported series are conversions of one truncated solution: first sample equals the initial state, loads, heating and pressures are evaluated on the same samples, the heat load is the running integral of the heat rate added to the initial heat load. Both integrators and the predictive variants report the same quantities, and an integration ends before the requested time only in nearly vertical descent.',
     [I, H], 'every initial state, integrator output and density profile', 'Tests look at one end state per solver.',
     [V], [('propagators', V + ': propogateEntry, propogateEntry2, propogateEntry_util*, solveTrajectory*')], 'The integrator is an arbitrary function honouring its contract; 2-4 samples.')
prop('V08', 'Exit-orbit elements, capture flags and DV costs follow from the exit state',
     'Apoapsis and periapsis altitudes, energy, eccentricity and angular momentum reported for an exit state are those of the Keplerian orbit through the inertial state including planet rotation, and target flags and predicted apoapsis agree with them (the capture flag with the planet-relative energy). Periapsis-raise and apoapsis-correction costs equal the speed change between the two orbits at the manoeuvre point.',
     [I, C], 'every exit state, bound or hyperbolic, every target orbit and body', 'Tests check two exit states and no hyperbolic, retrograde or rotating-frame case.',
     [V], [('elements', V + ': compute_ApoapsisAltitudeKm, compute_PeriapsisAltitudeKm, computeEnergyScalar'), ('flags', V + ': isCaptured, hitsTargetApoapsis*'), ('cost', V + ': compute_periapsis_raise_DV, compute_apoapsis_raise_DV')],
     'Any state; two bodies without a low-altitude constant are recorded known findings.')
prop('V09', 'Corridor searches return the boundary of capture within tolerance',
     'A corridor limit search returns a flown angle inside its bracket that is within tolerance of one with the opposite outcome, or reports failure when both ends agree; every flight uses the bank angle or ballistic coefficient the limit is defined by, and the entry state and lift are restored. Corridor width is the overshoot minus the undershoot limit, each searched in its own bracket.',
     [I, C], 'every bracket, tolerance and monotone outcome', 'Tests run one corridor per solver to one digit.',
     [V], [('bisection', V + ': findOverShootLimit*, findUnderShootLimit*'), ('width', V + ': computeTCW*')], 'Brackets up to 64x (thorough 1024x) the tolerance; arbitrary capture outcome.')
prop('V10', 'Bank control respects the roll-rate limit and measured density is faithful',
     'The commanded bank moves toward the command by no more than the roll-rate limit allows and lands exactly on it when within reach. The in-flight density model returns the measured values at measured altitudes and extends them exponentially below without becoming negative.',
     [I, C], 'every command, current bank, limit, step and measured history', 'Untested apart from runs of a full simulation.',
     [V], [('controller', V + ': psuedoController'), ('density model', V + ': createDensityMeasuredFunction')], 'Any command; 2-3 measured samples.')
prop('V11', 'Guided aerocapture phases chain without gaps and stop on their end conditions',
     'Each guidance cycle starts from the state, heat load and downrange at which the previous one ended, flies the bank given by the controller for the stated guidance law, and the reported history is the concatenation of the cycles with continuous time. A phase ends exactly when its switch speed, exit altitude or predicted-apoapsis condition holds, and the final orbit and correction costs are those of the final sample.',
     [I, H], 'every sequence of flown segments, gains, thresholds and limits', 'Tests run two full missions and check two numbers at the end.',
     [V], [('phases', V + ': propogateEquilibriumGlide*, propogateEntryPhaseD*, propogateExitPhase*'), ('sequencing', V + ': propogateGuidedEntry*')],
     'Three (thorough four) cycles per phase; flown segments, prediction and controller are arbitrary functions.')
prop('V12', 'Monte Carlo runs fly exactly the dispersed inputs and report their own result',
     'Every run of a campaign flies the drawn entry angle, vehicle parameter and density profile (and nothing left over from an earlier run) and otherwise the nominal entry state, with draws requested from the stated distributions. The written files hold, run by run and in the same order, the sampled inputs and the orbit, loads and costs of that run\'s own trajectory.',
     [I, H], 'every sequence of draws, nominal values and dispersions', 'Tests run one-sample campaigns and do not compare outputs with the sampled inputs.',
     [V], [('campaigns', V + ': runMonteCarlo, runMonteCarloD, runMonteCarloD_Earth, runMonteCarloE, setupMonteCarloSimulation*')],
     'Campaigns of 2 (thorough 3) runs with arbitrary draws; one flight is an arbitrary function.')


prop('A01', 'Approach hyperbola matches the arrival velocity and aim point',
     'For an arrival velocity, periapsis radius and B-plane angle the reported hyperbola has that arrival speed and direction on the body axes, energy, eccentricity, angular momentum and miss distance consistent with them, its plane contains the incoming asymptote and the aim point, and periapsis lies at the requested radius and B-plane direction. Rotations between inertial, body and target axes preserve lengths and angles.',
     [I, C], 'every arrival velocity, pole direction, periapsis radius and B-plane angle', 'Tests check one arrival at Neptune.',
     [AP], [('constructor', AP + ': Approach.__init__'), ('axes', AP + ': ICRF_to_BI, BI_to_BI_dprime, R1, R2, R3')], 'Exact over the reals, any arrival not along the pole.')
prop('A02', 'Approach states lie on the hyperbola and entry is its inbound crossing',
     'Position and velocity at any true anomaly are the Keplerian state on the hyperbola (inbound before periapsis, outbound after), scalar and series forms agree, and the reported entry state is the inbound crossing of the entry altitude. Entry latitude, longitude, speed, flight-path angle and heading follow from that state, relative to the inertial and the rotating body as named.',
     [I, C], 'every hyperbola, true anomaly inside the asymptotes and entry altitude above periapsis', 'Tests evaluate one entry state.',
     [AP], [('states', AP + ': pos_vec_bi, vel_vec_bi, r_mag_bi, pos_vec_bi_dprime'), ('entry', AP + ': theta_star_entry, *_entry_inertial, *_entry_atm')],
     'Exact over the reals; the planet-relative heading is a recorded known finding.')
prop('O01', 'Orbit after atmospheric exit follows from the exit state and raise burn',
     'From an exit state over the rotating planet the orbiter reports the inertial state, the Keplerian elements of the orbit through it (plane, shape, line of apsides), coasts it to apoapsis, and raises periapsis there with the reported speed change, keeping plane and apoapsis. Positions and velocities along either orbit satisfy the orbit equation and conserve energy and angular momentum.',
     [I, C], 'every captured exit state, rotation rate and target periapsis', 'Tests check one Neptune case to a few digits.',
     [OR], [('exit', OR + ': Orbiter.compute_exit_state_inertial, compute_coast_orbital_elements'), ('raise', OR + ': compute_PRM_dv, compute_post_PRM_orbital_elements'), ('states', OR + ': pos_vec_bi, vel_vec_bi and plotting arrays')],
     'Exact over the reals; the inertial heading report is a recorded known finding.')
prop('O02', 'Probe and deflection manoeuvres in orbit give the orbit of the changed velocity',
     'Applying the probe-targeting or orbiter-deflection speed change at the chosen true anomaly yields the Keplerian elements of the orbit through that position with the changed velocity, and the probe entry state is the inbound crossing of the entry altitude on it, with latitude, longitude, speed and angles of that state. A probe orbit that never reaches the entry altitude reports no entry.',
     [I, C], 'every orbit, manoeuvre anomaly and speed change, entry altitude', 'Tests check one manoeuvre.',
     [OR], [('probe', OR + ': compute_probe_targeting_trajectory'), ('deflection', OR + ': compute_orbiter_deflection_trajectory')],
     'Exact over the reals; position on the turned probe orbit and two planet-relative angles are recorded known findings.')
prop('O03', 'Propulsive insertion reaches the requested orbit and obeys Kepler\'s equation',
     'Propulsive insertion at periapsis of an approach yields the orbit with the requested apoapsis in the arrival plane, at a cost equal to the speed difference at periapsis. States and positions in time on the orbit obey Kepler\'s equation: mean anomaly grows linearly with time and the true anomaly matches.',
     [I, C], 'every arrival, apoapsis and time', 'Tests check one insertion.',
     [OR], [('insertion', OR + ': PropulsiveOrbiter'), ('timing', OR + ': compute_timed_orbit_trajectory')], 'Exact over the reals.')
prop('M01', 'Deflection manoeuvres join the two arrivals at the manoeuvre point',
     'A probe/orbiter separation or orbiter deflection is applied on the inbound leg of the first arrival at the stated distance, its delta-V vector is the velocity on the second path minus that on the first, and its size is the norm of that vector. Each path reaches its aim point with the energy of the arrival, and the reported times of flight are those along the paths.',
     [I, C], 'every pair of arrivals with a common arrival speed and every manoeuvre distance', 'Tests check one Neptune case per class.',
     [MA], [('constructors', MA + ': ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection')],
     'Exact over the reals; the second leg of the two-probe manoeuvre is a recorded known finding.')

LA, IN, TE, VI = 'AMAT/launcher.py', 'AMAT/interplanetary.py', 'AMAT/telecom.py', 'AMAT/visibility.py'
prop('L01', 'Launch capability interpolates its table and follows each trajectory',
     'The launch mass at any C3 inside a launcher\'s table is the linear interpolation of its neighbouring rows (the tabulated value at a tabulated C3) and zero outside the table, for single values and arrays alike. The capability of a trajectory database is, trajectory by trajectory and in order, the launch mass at that trajectory\'s own C3, and every figure shows those series and is saved.',
     [I, C], 'every capability table, C3 and trajectory database', 'Tests read a few C3 values off the shipped tables and draw a few figures.',
     [LA, IN], [('launcher', LA + ': Launcher'), ('database and figures', IN + ': Interplanetary')],
     'Tables of 2-3 rows and databases of two trajectories with arbitrary entries.')
prop('T01', 'Link budget is the sum of its stated gains and losses',
     'For any frequency, power, antenna sizes or gains, losses, range and data rate, the reported free-space loss, antenna gains, available Eb/N0 and margin obey the link equation in decibels. A stated antenna size determines its own gain; otherwise a stated gain, zero included, is used as given; printing the budget does not change it.',
     [I, C], 'every link and antenna configuration', 'Tests check the attributes of a handful of published links.',
     [TE], [('budget', TE + ': Link.__init__, compute_dB, compute_antenna_gain, compute_free_space_loss_dB')], 'Exact up to 0.02 dB for the constants.')
prop('T02', 'Data is returned exactly while the target is visible and transmission is on',
     'A schedule transmits at a sample exactly when that time lies in one of its windows, ends included. The data volume starts at zero, never decreases, and grows with the data rate over time while the link is both visible and scheduled (trapezoidal between samples), and not otherwise.',
     [I, H], 'every set of windows, visibility history and sampling', 'Tests check the types of the results.',
     [TE], [('schedule', TE + ': Schedule'), ('volume', TE + ': Link.compute_data_volume')], '0-2 windows and 2-4 samples, any values.')
prop('S01', 'Visibility means the line of sight clears the planet',
     'A lander sees its target exactly when the target is above its local horizon, as the lander turns with the planet in the planet\'s own sense about its pole, with the reported range, zenith angle and elevation (zero when hidden) of that line of sight. An orbiter sees a distant planet exactly unless it is behind its own planet\'s disc, and times run forward over the stated span.',
     [I, C], 'every body position, pole, spin, latitude and orbit', 'Tests check one or two dates and only the types of the arrays.',
     [VI], [('frames', VI + ': Visibility'), ('lander', VI + ': LanderToPlanet, LanderToOrbiter'), ('orbiter', VI + ': OrbiterToPlanet')],
     'Any geometry; 2-3 samples; ephemeris and timed orbit are arbitrary.')

prop('F01', 'Figures show the profile or trajectory they are labelled with',
     'The profile figure shows the temperature, pressure, density and sound-speed look-ups of the loaded atmosphere over the requested altitudes up to the model top; the trajectory figure shows the reported altitude, speed, deceleration and heating histories over time; the q-plot flies the requested entry and shows its dynamic pressure in pascals over altitude in metres.',
     [I, C], 'every profile and every reported trajectory', 'Figures are not looked at by any test.',
     [V, PL], [('figures', V + ': makeBasicEntryPlots, createQPlot'), ('profile', PL + ': checkAtmProfiles')], 'Two to three samples with arbitrary values; drawing calls are recorded.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    tech = 'symbolic execution of the real Python code over reals, obligations decided by an SMT solver (z3), counterexamples replayed'
    m = dict(version=1, setup_cmd='python3 /verif/run.py --list',
             checks=[dict(property=p['id'], quick_cmd='python3 /verif/run.py %s --tier quick' % p['id'],
                          thorough_cmd='python3 /verif/run.py %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=tech, level=p['_level'],
                          level_note=p['_note'] + ' Doubles are treated as reals; bounds, stubs and assumptions are listed in the evidence file.')
                     for p in P if not p['_na']],
             not_applicable=[dict(property=p['id'], reason=p['_na']) for p in P if p['_na']],
             notes='No hooks in /repo: the checks execute the unmodified sources of /repo/AMAT read at every run. Exit 0 with INCONCLUSIVE lines means those parts were not decided (recorded in the evidence), see DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
