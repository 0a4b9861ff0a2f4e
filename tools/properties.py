#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}})


M = "src/math_physics/"
p("C01", "All attitude representations describe the same rotation",
  "For every rotation, the quaternion, direction cosine matrix, Euler-angle and axis-angle forms convert into each other (both ways) without "
  "changing the rotation, and converting a vector into a frame with any of them gives the same result. Converting back with the inverse "
  "conversion, the conjugate or the transpose restores the vector, products of quaternions compose rotations like products of matrices, and every "
  "produced quaternion has unit norm and every produced matrix is a proper orthogonal matrix.",
  ["inputs"], "every rotation, including those near 180 degrees, near the Euler singularity and the identity, and every vector",
  "The existing tests convert a few fixed rotations; the conversions branch on the largest matrix element and on near-parallel vectors.",
  [M + "math/quaternion.cpp", M + "math/matrix_vector.hpp"], [("Quaternion conversions", M + "math/quaternion.cpp")],
  ["public operations of the quaternion and the rotation matrix functions"])
p("C02", "Vector and matrix algebra obeys linear algebra",
  "Sums, scalings, inner and outer products, norms, normalisation, transposes, matrix products, inverses, linear-system solutions, angles between "
  "vectors, orthogonal unit vectors and spherical/cartesian conversions satisfy their defining identities for every finite operand. The angle between two non-zero vectors is a "
  "finite number in [0, pi] also for parallel and opposite vectors, and the zero vector normalises to a finite vector.",
  ["inputs"], "every finite vector and every well-conditioned matrix, including (anti)parallel vectors and permuted matrices that need pivoting",
  "The existing tests check single small examples; the identities must hold for every operand and size.",
  [M + "math/vector.cpp", M + "math/vector_template_functions.hpp", M + "math/matrix_vector_template_functions.hpp"],
  [("LU decomposition with pivoting", M + "math/matrix_vector_template_functions.hpp"), ("vector helpers", M + "math/vector.cpp")],
  ["results of the algebra functions"])
p("C03", "Numerical integrators converge at their stated order",
  "Each fixed-step integrator integrates every polynomial right-hand side up to its order exactly and its global error on a smooth problem falls "
  "with the step at its stated order (RK4: four; the embedded Fehlberg and Dormand-Prince pairs advance with their fifth-order solution); interpolation inside a step is consistent with the states at both ends and with the solution. "
  "Integration is independent of how a run is split into calls, and the independent variable advances by exactly the steps taken.",
  ["inputs", "histories"], "every smooth right-hand side, initial state, step width, and split of the integration",
  "The tests integrate two or three fixed problems with a loose tolerance, which lower-order or wrongly weighted schemes also pass.",
  [M + "numerical_integration/", M + "math/ordinary_differential_equation.hpp"],
  [("Butcher tables", M + "numerical_integration/"), ("RK4 step", M + "math/ordinary_differential_equation_template_functions.hpp")],
  ["integrated states and interpolated states"])
p("C04", "Interpolation reproduces its samples and the function they come from",
  "Interpolation of samples returns each sample exactly at its own abscissa, reproduces polynomials (and trigonometric polynomials) up to the "
  "degree its number of samples allows, and tracks smooth orbits between samples. This holds for unevenly spaced and unordered-magnitude "
  "samples and after any number of later samples have replaced the oldest ones.",
  ["inputs", "histories"], "every set of distinct abscissas, sample values, query point and sequence of pushed samples",
  "The tests interpolate a few fixed series; the guarantee is about all series, degrees and buffer histories.",
  [M + "math/interpolation.cpp", M + "orbit/interpolation_orbit.cpp"], [("Lagrange-type interpolation", M + "math/interpolation.cpp")],
  ["interpolated values"])
p("C05", "Time representations convert without drift and order consistently",
  "A calendar date-time, an epoch time, a GPS time, a Julian day and a decimal year of the same instant convert into each other and back unchanged "
  "(to the resolution of the format), for every date supported. Adding and subtracting intervals is consistent (normalised fraction, additivity, "
  "inverse), and comparison orders instants exactly as time does.",
  ["inputs"], "every date from 1970 to 2099 including leap days, year ends, sub-second fractions and negative intervals",
  "The tests check isolated dates; carry, borrow and leap rules only show at particular dates and fractions.",
  [M + "time_system/", M + "orbit/sgp4/sgp4ext.cpp"],
  [("carry and normalisation of fractions", M + "time_system/epoch_time.cpp"), ("calendar conversion", M + "time_system/date_time_format.cpp")],
  ["converted values"])
p("C06", "The simulation clock advances exactly and schedules every update on time",
  "Elapsed time, Julian day, calendar date, ephemeris time, sidereal time and decimal year all describe the same instant at every step, and the run ends exactly after the "
  "configured duration. Every periodic activity (attitude, orbit, thermal, component, log) is triggered once per configured period: never twice in a "
  "period, never skipped, for every combination of step and periods.",
  ["configurations", "histories"], "every start date, step width, set of update periods that are multiples of the step, and number of steps",
  "No test touches the simulation clock; accumulation and rounding errors show only over long runs and odd steps.",
  ["src/environment/global/simulation_time.cpp", "src/environment/global/clock_generator.cpp"],
  [("UpdateTime counters", "src/environment/global/simulation_time.cpp")], ["update flags and times after every step"],
  [("update counters", "steps since the last trigger", "src/environment/global/simulation_time.hpp")])
p("C07", "Kepler orbits and orbital elements are faithful to two-body motion",
  "Converting a position and velocity to orbital elements and propagating them reproduces the state at the epoch and, at any other time, the "
  "two-body solution: energy, angular momentum vector and eccentricity vector stay constant and Kepler's equation is satisfied. This holds for every "
  "bound orbit, whatever its inclination, node, perigee, eccentricity and phase.",
  ["inputs"], "every elliptic orbit (eccentricity 0 to 0.9, all quadrants of the angles, prograde and retrograde) and every propagation time",
  "No test covers the element conversion or the Kepler propagation; quadrant mistakes show only for some orbits.",
  [M + "orbit/kepler_orbit.cpp", M + "orbit/orbital_elements.cpp"],
  [("element conversion", M + "orbit/orbital_elements.cpp"), ("Newton iteration", M + "orbit/kepler_orbit.cpp")], ["propagated position and velocity"])
p("C08", "Relative orbit propagation solves the linear relative dynamics",
  "The state-transition forms of relative motion start from the identity, compose over consecutive intervals, and agree with the integration of the "
  "relative equations of motion they come from. A relative-orbit propagation keeps position and velocity of the follower consistent with the leader's rotating local "
  "frame: its velocity is the time derivative of its position.",
  ["inputs", "histories"], "every relative state, orbit rate, propagation time and update method",
  "No test covers relative motion.",
  [M + "orbit/relative_orbit_models.cpp", "src/dynamics/orbit/relative_orbit.cpp"],
  [("Clohessy-Wiltshire transition matrix", M + "orbit/relative_orbit_models.cpp"), ("frame conversion", "src/dynamics/orbit/relative_orbit.cpp")],
  ["relative state, inertial position and velocity"])
p("C09", "Geodetic and Cartesian positions are inverse to each other",
  "Latitude, longitude and altitude convert to an Earth-fixed position and back to the same place anywhere from below sea level to beyond "
  "geostationary altitude, including the poles, the equator and the date line. The local topographic frame is a rotation whose axes are east, "
  "north and up at that place.",
  ["inputs"], "every latitude, longitude (in any revolution) and altitude",
  "No test covers the conversion; it iterates and divides by quantities that vanish at the poles.",
  ["src/math_physics/geodesy/geodetic_position.cpp"], [("iterative latitude", "src/math_physics/geodesy/geodetic_position.cpp")],
  ["converted coordinates, frame quaternion"])
p("C10", "Gravity models give the gradient field of the harmonic potential",
  "The modelled acceleration equals the gradient of the spherical-harmonic potential of the given coefficients up to the configured degree (a degree of 0 or 1 adds nothing), and its partial derivatives are symmetric, "
  "trace-free and equal to the derivatives of the acceleration, everywhere outside the body including on and near the polar axis. The gravity "
  "disturbances use exactly the coefficients read from the file, in the body-fixed frame of the moment.",
  ["inputs", "configurations"], "every position outside the body, every degree from 0 to the maximum of the file",
  "The tests compare a few positions and small degrees; recursions fail at particular degrees, orders and latitudes.",
  [M + "gravity/gravity_potential.cpp", "src/disturbances/geopotential.cpp", "src/disturbances/lunar_gravity_field.cpp"],
  [("V/W recursions", M + "gravity/gravity_potential.cpp"), ("coefficient reader", "src/disturbances/geopotential.cpp")], ["acceleration, partial derivatives"])
p("C11", "The geomagnetic field is the one of the reference model at place and time",
  "The magnetic field at every position and date is the gradient of the reference spherical-harmonic model with coefficients interpolated to "
  "that date, turned into the inertial frame with the sidereal angle of the moment, and its body-frame form is the same vector seen from the attitude of the moment. Configured bias "
  "and noise are the only deviations.",
  ["inputs", "configurations"], "every position, altitude, date within the model's epochs, and attitude",
  "No test covers the magnetic field.",
  ["src/math_physics/geomagnetic/igrf.cpp", "src/environment/local/geomagnetic_field.cpp"],
  [("coefficient interpolation and synthesis", "src/math_physics/geomagnetic/igrf.cpp")], ["field vectors in both frames"])
p("C12", "Celestial body states and rotating frames are mutually consistent",
  "The Earth and Moon rotation matrices are proper rotations that vary continuously at the body's rotation rate and follow the clock of the simulation; distances and positions between bodies are antisymmetric "
  "and additive. The spacecraft-centred and body-frame positions and velocities of every body are the same vectors seen from the spacecraft "
  "position and attitude of the moment.",
  ["inputs", "configurations", "histories"], "every date, rotation mode, set of bodies, spacecraft state and attitude",
  "No test can run these parts (they need the ephemeris library); frame mistakes show only when the frames differ.",
  ["src/environment/global/celestial_information.cpp", "src/environment/global/earth_rotation.cpp", "src/environment/global/moon_rotation.cpp",
   "src/environment/local/local_celestial_information.cpp", "src/math_physics/planet_rotation/moon_rotation_utilities.cpp"],
  [("precession, nutation, sidereal rotation", "src/environment/global/earth_rotation.cpp"), ("frame conversion", "src/environment/local/local_celestial_information.cpp")],
  ["matrices and state vectors after every update"])
p("C13", "Sunlight at the spacecraft follows distance and eclipse geometry",
  "The illuminated fraction is always within [0, 1]: 1 when no shadowing body covers any of the solar disc, 0 when one covers all of it, and otherwise the uncovered "
  "share of the disc; with several bodies their shadows combine. Radiation pressure and power density scale with the inverse square of the Sun distance and with that fraction, and "
  "reflected and infrared radiation of the Earth is never negative.",
  ["inputs", "configurations"], "every Sun-body-spacecraft geometry (umbra, penumbra, annular, none) and every list of shadowing bodies",
  "No test covers it; penumbra and annular geometries are thin sets that ordinary runs hardly meet.",
  ["src/environment/local/solar_radiation_pressure_environment.cpp", "src/environment/local/earth_albedo.cpp"],
  [("disc overlap", "src/environment/local/solar_radiation_pressure_environment.cpp")], ["shadow coefficient, pressure, power density"])
p("C14", "Atmospheric density models are positive, decreasing and follow their tables",
  "Each density model returns a finite non-negative density for every altitude, decreasing with altitude and continuous across the segments of its table, and follows its "
  "reference table or inputs at the given place and time. The simulated density uses the selected model, the position of the moment and the configured noise only.",
  ["inputs", "configurations"], "every altitude from 100 km to beyond the table's end, latitude, longitude, Sun direction and date",
  "No test covers it; table segments and ends are special cases.",
  ["src/math_physics/atmosphere/", "src/environment/local/atmosphere.cpp"],
  [("table lookup and interpolation", "src/math_physics/atmosphere/harris_priester_model.cpp"), ("table", "src/math_physics/atmosphere/simple_air_density_model.cpp")],
  ["returned density"])
p("C15", "Random sequences are reproducible, in range and distributed as specified",
  "A generator restarted with a seed repeats exactly the sequence it gave for that seed, different seeds give different sequences, and no seed makes it stick. Uniform values stay "
  "strictly inside their interval and fill it evenly, normal values have the requested mean and deviation without serial correlation, and a random walk "
  "stays within its limit and starts from its initial value.",
  ["inputs", "histories"], "every seed, every interleaving of draws and reseeding",
  "No test covers the generators; degenerate seeds and stale state after reseeding need particular histories.",
  [M + "randomization/"], [("shuffle table", M + "randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp"), ("Box-Muller", M + "randomization/normal_randomization.cpp")],
  ["drawn values"])
p("C16", "Attitude dynamics conserve and transfer angular momentum",
  "Without torque, total inertial angular momentum (body plus wheels) and rotational energy are conserved and the quaternion keeps unit norm; with a constant or "
  "varying torque, inertia and wheel momentum the motion is the solution of Euler's equations, whatever the split into updates. A controlled attitude "
  "points the configured axes at the configured targets at every update, and its angular velocity is the rate of change of its quaternion. The reported angular momentum and kinetic energy are those of the state.",
  ["inputs", "configurations", "histories"], "every inertia, initial attitude and rate, torque history, wheel momentum, pointing mode and update sequence",
  "No test covers attitude propagation.",
  ["src/dynamics/attitude/"], [("RK4 propagation", "src/dynamics/attitude/attitude_rk4.cpp"), ("target pointing", "src/dynamics/attitude/controlled_attitude.cpp")],
  ["quaternion, angular velocity, momentum, energy after each update"])
p("C17", "Every orbit propagator follows its dynamics and stays self-consistent",
  "Numerical, Encke, Kepler, SGP4 and file-based propagation each give the trajectory of the dynamics they model: two-body plus the applied accelerations for the integrators, the "
  "analytic or tabulated orbit for the others, independently of how the time is split into updates. After every update the Earth-fixed, geodetic and body-frame "
  "quantities describe the same state as the inertial position and velocity.",
  ["inputs", "configurations", "histories"], "every initial orbit, propagation mode, step, update sequence, applied acceleration history and attitude",
  "No test covers orbit propagation.",
  ["src/dynamics/orbit/"], [("RK4 propagation", "src/dynamics/orbit/rk4_orbit_propagation.cpp"), ("Encke propagation", "src/dynamics/orbit/encke_orbit_propagation.cpp"),
   ("derived quantities", "src/dynamics/orbit/orbit.hpp")], ["state after each update"])
p("C18", "Thermal network obeys energy balance and its control laws",
  "Node temperatures change exactly by the sum of conduction, radiation, solar, heater and internal heat over the node's capacity: boundary nodes stay fixed, an isolated "
  "network conserves energy and conduction moves heat from hot to cold. Internal heat follows its time table periodically and interpolated, and heaters "
  "switch only at their thresholds and supply their rated power.",
  ["inputs", "configurations", "histories"], "every network, table, attitude to the Sun, heater setting and length of run (beyond several periods of the tables)",
  "No test covers the thermal model.",
  ["src/dynamics/thermal/"], [("temperature integration", "src/dynamics/thermal/temperature.cpp"), ("heat table", "src/dynamics/thermal/heatload.cpp"),
   ("hysteresis", "src/dynamics/thermal/heater_controller.cpp")], ["temperatures, heat loads and heater states after each step"])
p("C19", "Disturbance forces and torques follow their physical laws and add up",
  "Each disturbance gives the force, torque or acceleration of its physical law for the spacecraft's surfaces, inertia, residual moment and mass at the state of the moment, is finite for every geometry "
  "and is zero when disabled. The totals handed to the dynamics are the sums of the enabled disturbances, recomputed every step.",
  ["inputs", "configurations"], "every attitude, orbit, surface set, enable combination, including surfaces exactly facing or edge-on to the source",
  "No test covers disturbances.",
  ["src/disturbances/"], [("surface force", "src/disturbances/surface_force.cpp"), ("summation", "src/disturbances/disturbances.cpp")], ["force, torque and acceleration of each disturbance and the totals"])
p("C20", "Sensors report the truth in their own frame with only the configured errors",
  "Every sensor output is the true quantity of the moment expressed in the sensor frame, with the configured scale, bias, noise, quantisation, delay and range, and nothing else; "
  "outputs never exceed the configured range. Validity flags (sun, star tracker, satellite visibility) are set exactly under the configured exclusion, field-of-view, rate and threshold conditions.",
  ["inputs", "configurations", "histories"], "every attitude, rate, position, sensor mounting, range, delay and sequence of measurements",
  "No test covers any sensor.",
  ["src/components/base/sensor.hpp", "src/components/real/aocs/", "src/components/ideal/"],
  [("scale, bias, noise, clipping", "src/components/base/sensor_template_functions.hpp"), ("delay buffer", "src/components/real/aocs/star_sensor.cpp")],
  ["measured values, flags"])
p("C21", "Actuators produce the commanded output within their limits",
  "Every actuator delivers its commanded force, torque or magnetic moment in the body frame according to its mounting, after its configured delay and lag, and never beyond its limits; "
  "without command or power its output returns to rest. Wheel momentum change equals minus the torque applied to the body, and thruster torque is the lever arm "
  "times the thrust.",
  ["inputs", "configurations", "histories"], "every mounting, command history, delay, saturation and power state",
  "No test covers any actuator.",
  ["src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/magnetorquer.cpp", "src/components/real/propulsion/simple_thruster.cpp", "src/components/ideal/"],
  [("wheel dynamics", "src/components/real/aocs/reaction_wheel_ode.cpp"), ("first order lag", M + "control_utilities/first_order_lag.hpp")], ["output force, torque, moment, momentum"])
p("C22", "Electrical power is conserved and protected at every port and battery",
  "At every update a power port is on exactly if its voltage is at least its minimum and the resulting current is within its limit, and draws its assumed power at that voltage; solar panels give power only "
  "towards the lit side. The battery's charge is the integral of its current, its voltage follows its discharge curve, charging never exceeds the configured current and voltage, and the bus balances generation, load and battery.",
  ["inputs", "configurations", "histories"], "every voltage, limit, load, sun angle, battery state and sequence of connects, closes and updates",
  "No test covers power components.",
  ["src/components/ports/power_port.cpp", "src/components/real/power/"],
  [("port protection", "src/components/ports/power_port.cpp"), ("charge control", "src/components/real/power/pcu_initial_study.cpp")], ["port state, battery state of charge and voltage, bus voltage"])
p("C23", "Data ports deliver bytes in order, once, and only where they were sent",
  "Bytes written to a serial port are read at the other end unchanged, in order, without loss or repetition while the buffer (which holds one byte less than its size) is not overrun, for every pattern of writes and reads; directions, ports and register "
  "addresses never mix. Register, command and GPIO accesses read back what was last written, framing encodes and decodes any payload reversibly, "
  "and no sequence of operations touches memory outside the buffers.",
  ["inputs", "histories"], "every interleaving of writes, reads, connects and closes, every payload including framing bytes, every length around the buffer sizes",
  "No test covers the ports.",
  ["src/components/ports/", "src/components/real/cdh/on_board_computer.cpp", "src/components/base/uart_communication_with_obc.cpp", "src/components/base/i2c_target_communication_with_obc.cpp",
   "src/utilities/ring_buffer.cpp", "src/utilities/slip.cpp"],
  [("ring buffer indices", "src/utilities/ring_buffer.cpp"), ("register map", "src/components/ports/i2c_port.cpp"), ("escape bytes", "src/utilities/slip.cpp")], ["bytes read and return values"])
p("C24", "Components run exactly when their prescaler and power allow",
  "A component's main routine runs once on every tick count that is a multiple of its prescaler while its power port is on, and its power-off routine runs instead while it is off; fast updates run at the fast prescaler only when enabled. "
  "Components that are copied, added or destroyed at any time keep the clock's registry correct: no tick is lost, doubled or sent to a destroyed component.",
  ["configurations", "histories"], "every prescaler, power history and order of creation, copying and destruction",
  "No test covers component scheduling.",
  ["src/components/base/component.cpp", "src/environment/global/clock_generator.cpp"],
  [("tick gating", "src/components/base/component.cpp"), ("registry", "src/environment/global/clock_generator.cpp")], ["calls of the routines per tick"])
p("C25", "Log files are rectangular, complete and faithful",
  "In every log each row has exactly as many values as the header has columns, every logged value reads back as the value the simulation had to the printed precision, and one row is written per log period. "
  "Column names are unique within the log of a spacecraft and enabling, disabling or re-registering logged objects changes only their own columns.",
  ["configurations", "histories"], "every set of logged objects, settings, value and length of run",
  "No test covers logging.",
  ["src/logger/", "src/simulation/case/simulation_case.cpp"], [("header and value generation", "src/logger/logger.cpp"), ("formatting", "src/logger/log_utility.hpp")], ["written CSV files"])
p("C26", "Settings are read as written",
  "Every integer, real, string, boolean, vector, quaternion, list and table in a settings file is read as the value written, each key from its own section and index, and a missing key gives the documented default. "
  "Path placeholders are replaced, enable switches accept exactly their documented words, comments and spaces do not change values, and no value, however long, writes beyond its destination.",
  ["inputs"], "every value, key, section, index, length and formatting of settings and table files",
  "No test covers the settings reader.",
  ["src/setting_file_reader/initialize_file_access.cpp", "ExtLibraries/inih/"], [("typed access", "src/setting_file_reader/initialize_file_access.cpp")], ["returned values"])
p("C27", "Monte-Carlo runs vary exactly the configured parameters, reproducibly",
  "Each randomised parameter takes values of its configured distribution and bounds, in the same sequence for the same seed; parameters that are not listed keep their nominal values. Random directions and attitudes are spread as their "
  "distribution says, the requested number of runs is executed, and each run starts from its own draw.",
  ["inputs", "configurations", "histories"], "every seed, distribution, bound, number of runs",
  "No test covers Monte-Carlo execution.",
  ["src/simulation/monte_carlo_simulation/"], [("distribution generators", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp")], ["generated parameters per run"])
p("C28", "A simulation is deterministic, finite and memory-safe end to end",
  "A complete simulation with fixed seeds gives the identical log every time, independent of prior memory contents, and a run of a shorter duration is a prefix of a longer one. For every supported combination of settings it "
  "reads and writes only its own memory, and every logged number is finite and physically admissible (unit quaternions, momentum and altitude consistent) at every step.",
  ["configurations", "schedules", "histories"], "every supported combination of propagation modes, environment models, disturbances and components, every seed",
  "No test runs the simulator at all.",
  ["src/simulation/", "src/dynamics/dynamics.cpp", "src/environment/", "example/src/"], [("main loop", "src/simulation/case/simulation_case.cpp"), ("update order", "src/simulation/spacecraft/spacecraft.cpp")], ["complete log files, sanitizer reports"])
p("C29", "GNSS products are read faithfully and interpolated at the right epoch",
  "Orbit, clock, antenna and bias products are read with every satellite's values, units, epochs and missing-value marks as in the file, and satellite numbering maps one-to-one between names and indices. The position and clock offered "
  "at a time are interpolated from the epochs around that time and agree with the product at its epochs, across file boundaries.",
  ["inputs", "histories"], "every well-formed product (any number of satellites, epochs, systems, missing values) and every time inside its span",
  "The tests read one sample of each product; other satellite sets, missing records and window moves are not met.",
  [M + "gnss/", "src/environment/global/gnss_satellites.cpp"], [("SP3 records", M + "gnss/sp3_file_reader.cpp"), ("interpolation window", "src/environment/global/gnss_satellites.cpp")], ["read values, interpolated values"])
p("C30", "Relative information between spacecraft is symmetric and frame-consistent",
  "For every pair of spacecraft the relative position, velocity, distance and attitude seen from one is the exact counterpart of what the other sees, in the inertial frame and in the local orbital frame. "
  "The relative attitude carries directions of one body frame to the other, the velocity in the local frame is the rate of the position there, and values and log columns follow the states of the same update, whatever the number and order of registered spacecraft.",
  ["inputs", "configurations", "histories"], "every number of spacecraft, registration order, and state",
  "No test covers multiple spacecraft.",
  ["src/simulation/multiple_spacecraft/"], [("pairwise differences", "src/simulation/multiple_spacecraft/relative_information.cpp")], ["relative vectors and quaternions"])
p("C31", "Ground stations see a spacecraft exactly when it is above their horizon",
  "A ground station's inertial position is its fixed place carried by the Earth's rotation, and it reports a spacecraft visible exactly when its elevation there exceeds the limit. Link figures follow from distance, frequency, pointing in both antennas' own frames and losses: more "
  "distance never raises the margin, and no link is reported without visibility or with incompatible antennas.",
  ["inputs", "configurations"], "every station place, elevation limit, spacecraft position, attitude, antenna mounting and pattern",
  "No test covers ground stations or antennas.",
  ["src/simulation/ground_station/ground_station.cpp", "src/components/real/communication/"], [("elevation test", "src/simulation/ground_station/ground_station.cpp"),
   ("link budget", "src/components/real/communication/ground_station_calculator.cpp")], ["visibility, gains, margin and bitrate"])
p("C32", "Command scripts, command databases and star catalogues are decoded exactly",
  "Every command argument of a command database is encoded with its declared type, size and byte order, an operation script is executed line by line in order with its waits and comments, and a star catalogue gives every star its own direction and magnitude up to the limit. "
  "A star or body appears on an imaging sensor exactly when it is inside the field of view, at the projected place.",
  ["inputs"], "every database row, argument, script and catalogue content and every attitude",
  "No test covers these readers.",
  ["src/setting_file_reader/c2a_command_database.cpp", "src/setting_file_reader/wings_operation_file.cpp", "src/environment/global/hipparcos_catalogue.cpp", "src/components/real/mission/telescope.cpp"],
  [("argument encoding", "src/setting_file_reader/c2a_command_database.cpp"), ("projection", "src/components/real/mission/telescope.cpp")], ["encoded bytes, script lines, star lists"])
p("C33", "Damaged data files never corrupt memory or hang the reader",
  "Whatever bytes a data file contains (truncated, empty, with missing columns, overlong or non-numeric fields), reading it ends, touches only the reader's own memory, and either reports failure or gives the records that "
  "were readable. Queries with an index or time outside the data are refused rather than answered from other memory.",
  ["inputs"], "every truncation point and every corruption of the satellite orbit, clock, antenna, bias, star, command, script, table and settings files",
  "The tests read only well-formed files.",
  [M + "gnss/", "src/environment/global/hipparcos_catalogue.cpp", "src/setting_file_reader/", M + "geomagnetic/igrf.cpp"], [("record parsers", M + "gnss/sp3_file_reader.cpp")], ["sanitizer reports, exits, returned records"])
p("C34", "Optical beams and signal utilities satisfy their defining relations",
  "A Gaussian beam's radius and intensity satisfy the beam equations, its intensity integrates to its total power in every plane and falls off symmetrically from the axis. Quantisation moves a value towards zero onto a multiple of the step, by less than one step, and never exchanges the order of two values; "
  "first-order lags approach their gain times the input monotonically with the configured time constant, to the accuracy of the time step; byte-order copies reverse exactly the given bytes and touch no others.",
  ["inputs", "histories"], "every wavelength, waist, distance, power, value, step and time constant",
  "No test covers these utilities.",
  [M + "optics/gaussian_beam_base.cpp", "src/utilities/", M + "control_utilities/first_order_lag.hpp"], [("beam equations", M + "optics/gaussian_beam_base.cpp"), ("quantisation", "src/utilities/quantization.cpp")], ["returned values"])
p("C35", "Each simulation step combines state, environment, components and loads",
  "In every step of a spacecraft in which its attitude or orbit is due, the local environment, the disturbances and the components see the state of the beginning of the step; in other steps the environment is held. Components run before their interference, and their loads are asked for afterwards, once. "
  "The loads of the step, and of no other step, reach each dynamics that is due. Attitude and orbit move over exactly the time since their last update whatever the update periods and integration steps, stand still in between, and several spacecraft do not affect each other.",
  ["schedules", "histories"], "every combination of step, update periods, integration steps, loads and number of spacecraft",
  "No test runs the update of a spacecraft.",
  ["src/simulation/spacecraft/spacecraft.cpp", "src/dynamics/dynamics.cpp", "src/environment/local/local_environment.cpp"],
  [("composition of a step", "src/simulation/spacecraft/spacecraft.cpp"), ("propagation at the update periods", "src/dynamics/dynamics.cpp")], ["order of calls, environment at the components, applied loads, motion per update"])
p("C36", "The structure of a spacecraft is the one described, and changes take effect",
  "A structure file gives a spacecraft the mass, centre of gravity, inertia, residual magnetic moment and surfaces written there, whatever the order of its lines and the length of the normals; a surface that cannot be (negative area, a share outside 0 to 1) is not used. "
  "The setters accept every possible value and ignore impossible ones (no mass, no area, a share outside 0 to 1). A structure changed while the simulation runs is the structure of every disturbance, of the orbit and of the attitude from then on: "
  "after the change the spacecraft is loaded and moves exactly like one that was built with the new structure and started from the same state.",
  ["inputs", "histories"], "every structure, every change of its parts and every moment of the change",
  "No test reads a structure or changes one.",
  ["src/simulation/spacecraft/structure/", "src/disturbances/surface_force.cpp", "src/disturbances/disturbances.cpp", "src/dynamics/dynamics.cpp", "src/components/examples/example_change_structure.cpp"],
  [("structure files", "src/simulation/spacecraft/structure/initialize_structure.cpp"), ("loads on the surfaces", "src/disturbances/surface_force.cpp")], ["values of the structure, disturbance loads, orbit and attitude"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
