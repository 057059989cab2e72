#!/usr/bin/env python3
"""Authoring helper: writes /verif/properties.jsonl (the committed file is its output)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Tracking step obeys the relativistic equation of motion",
 "For every particle, field, time step and start momentum, each tracking step moves the particle in a straight line for exactly one time step with a velocity below c, and the momentum belonging to successive step velocities changes by exactly the Lorentz force at the trajectory point in between: (q/m)*dt*(E + v_mean x B), v_mean being the mean of the velocities before and after. The velocity of the first step follows from the start momentum by the half-step of the same law.",
 ["inputs", "histories"], "all field values, charge-to-mass ratios, time steps, start coordinates; every step (one step from an arbitrary reachable state)",
 "The EcrossB/loop/magnet tests follow a handful of trajectories in one field each and compare end points with per-cent tolerances; a wrong term that is small or zero in these geometries (e.g. E along B) is invisible.",
 ["src/particle.cpp", "src/particle.h"], [("Vay push initialisation and step", "ChargedParticle::InitVay, ChargedParticle::StepVay")],
 ["trajectory points read back from a tracked particle"])
prop("C02", "Tracked motion keeps its invariants and records them faithfully",
 "In a purely magnetic field the energy of a tracked particle never changes, in a field with E + v x B = 0 and without any field it moves uniformly for ever. Every step appends exactly one trajectory point, one time step later than the previous one, the stored momentum is the time-centred one of the scheme and the stored acceleration is the Lorentz force (q/m)(E/c + beta x B) for that momentum at that point; the field reported for the particle is the one seen at the current point.",
 ["inputs", "histories"], "all magnetic fields, velocities, charge-to-mass ratios and time steps; 1..4 successive steps",
 "Tests check energy conservation along single trajectories in one fixed field with tolerances.",
 ["src/particle.cpp"], [("Vay push and trajectory storage", "ChargedParticle::InitVay/StepVay/storeTrajectoryPoint")])
prop("C03", "Every particle of a beam is advanced exactly once per step",
 "Setting up and stepping a beam of any composition (bunches, particles per bunch, tracking started from any stored step) advances every particle by exactly one step of the beam's time step in the given field, leaves particles independent of each other, and increases the step count by one; unknown tracking methods are rejected.",
 ["configurations", "histories"], "all distributions of particles over bunches within the bound, all particle states",
 "Tests track beams of one bunch; order, duplicates and omissions inside multi-bunch beams are not sampled.",
 ["src/beam.cpp", "src/bunch.cpp"], [("beam stepping", "Beam::setupTracking, Beam::doStep, Bunch::InitVay, Bunch::StepVay")])
prop("C04", "Field of a trajectory point is the Lienard-Wiechert field",
 "For every trajectory point (position, momentum p=beta*gamma, acceleration d(beta*gamma)/dt) and every observation point the radiated-plus-velocity field equals the Lienard-Wiechert expression of the point charge, arriving at t + R/c; E scales linearly with charge, B = n x E / c, and a charge at rest gives the Coulomb field with no magnetic field.",
 ["inputs"], "all positions, momenta, accelerations, charges and observation points off the charge",
 "RadPush and electrostatic tests evaluate a few geometries (transverse acceleration or rest) with per-cent tolerances.",
 ["src/particle.cpp"], [("Lienard-Wiechert field of a stored point", "ChargedParticle::RetardedField(int,Vector), RetardedTime")])
prop("C05", "Field at a given time and place comes from the retarded source point",
 "The field of a particle at time t and point r is zero when the signal of the whole stored trajectory has already passed, and otherwise the Lienard-Wiechert field of the source state whose light cone contains (t, r): before the first stored point the particle is continued backwards with its first stored velocity without acceleration whatever the start time of the trajectory is, in between states are interpolated between the two neighbouring stored points. A bunch or beam gives the sum over its particles.",
 ["inputs"], "all trajectories (1..4 points), observation times and places; the interpolation part for observation points on the line of motion",
 "The electrostatic test looks at a few static points; the start time is always zero there.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"], [("light cone search", "ChargedParticle::RetardedField(double,Vector)")])
prop("C06", "Sampled field traces conserve the time integral of the radiated field",
 "Adding a particle's field to a sampled trace puts into every sample exactly the average over that sample's time bin of the field interpolated linearly between the arrival times of successive trajectory points, for any position of these arrival times relative to the bins; nothing outside the trace window contributes, previous content is added to, and beams and bunches add the sum over their particles.",
 ["inputs"], "all arrival times and field values, trace start times and sampling steps, segments shorter, equal or longer than bins and windows; up to 4 samples and 3 trajectory points",
 "The integrate_field test uses one trajectory and one trace layout; bin-edge coincidences, segments covering several bins or the whole window are not enumerated.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp", "src/fieldtrace.cpp"], [("bucket integration", "ChargedParticle::integrateFieldTrace"), ("accumulation", "FieldTrace::add")])
prop("C07", "Field traces behave as sampled functions of time",
 "A trace gives exactly the stored value at its sample times, the linear interpolation in between, falls linearly to zero within one step beyond either end and is zero further out; sums, differences, scaling, energy flow, derivative, rotation of axes and removal of the longitudinal component act sample by sample as on functions, without changing the operands. Out-of-range indices, mismatching sizes or timings are always rejected with an exception and leave the data untouched.",
 ["inputs"], "all sample values, start times, sampling steps and query times; traces of up to 4 samples",
 "No test calls most of these operations; the diffraction test uses one smooth pulse.",
 ["src/fieldtrace.cpp", "src/fieldtrace.h"], [("trace arithmetic", "FieldTrace::*")])
prop("C08", "Retarded traces are the source trace shifted in time",
 "Retarding a trace by a delay gives, at each sample time of the target, the source field at that time minus the delay (linear interpolation, zero outside the source window), never reads outside the source data whatever the two time windows are, keeps the target's timing and rejects a result without any signal.",
 ["inputs"], "all delays, start times and sampling steps of both traces; up to 3 samples each",
 "Only used by the untested propagate/reflection programs.",
 ["src/fieldtrace.cpp"], [("retardation", "FieldTrace::retard")])
prop("C09", "Particles survive copying and serialization unchanged",
 "Copying a particle, or writing it to a buffer (current state or full trajectory) and restoring it, yields a particle with the same charge, mass, coordinates and, where included, the same trajectory; continued tracking of a full copy gives the same motion as the original. Buffers are filled exactly to their announced size.",
 ["inputs", "histories"], "all particle states, trajectories of 1..3 points, before and after tracking started",
 "No test serializes particles.",
 ["src/particle.cpp"], [("serialization", "ChargedParticle::serialize, serializeTraj, constructors from buffer, copy constructor")])
prop("C10", "Step buffers carry a beam between nodes without loss or reordering",
 "Writing the current step of a beam to its communication buffer and applying the buffer to another beam of the same structure gives every particle exactly the time, position, momentum and acceleration of its counterpart and appends one trajectory point; buffer size is exactly used, and restoring the same beam's own buffer is the identity.",
 ["inputs", "configurations"], "all particle states, all splits of particles into bunches within the bound",
 "Only exercised with one MPI rank and one bunch.",
 ["src/beam.cpp", "src/bunch.cpp"], [("gather buffers", "Beam::bufferStep/setStepFromBuffer, Bunch::bufferStep/setStepFromBuffer")])
prop("C11", "Probe records take the requested particles, each once, in order",
 "Recording probe particles of a beam for any requested number up to the beam size writes that many distinct particles, taken alternately from the bunches, always the same ones at each time, with time, position, momentum, acceleration and the fields they feel, and finishes for every beam composition; requests for more particles than exist give all particles.",
 ["inputs", "configurations"], "all bunch compositions within the bound (including empty bunches) and all request sizes",
 "No test uses probes with several bunches.",
 ["src/beam.cpp", "src/particle.cpp", "src/logger.cpp"], [("round-robin selection", "Beam::bufferProbe, Bunch::bufferProbe"), ("probe logger", "ProbeLogger")])
prop("C12", "Observer buffers round-trip all field samples",
 "For every observer type and all grid dimensions the exported buffer has exactly the announced number of values, importing it restores every sample of every cell, importing the sum of several nodes' buffers gives the sum of their fields, and a buffer of any other size is rejected with an exception. The announced size is correct up to the largest grids the memory can hold (no wrap-around).",
 ["inputs", "configurations"], "all field values, small grids completely; sizes of all grids with up to 2^20 per dimension",
 "Tests run one rank and small grids; size arithmetic near 2^32 cannot be run in a test.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/source_screen.cpp"], [("buffer exchange", "getBufferSize/getBuffer/fromBuffer of the observers")])
prop("C13", "Observation grids are centred and oriented as specified",
 "Cell (ix,iy) of a screen is observed at centre + (ix - Nx/2)*dX + (iy - Ny/2)*dY (integer halves), of a snapshot at centre + (ix - (Nx-1)/2)*dX + (iy - (Ny-1)/2)*dY (exactly centred). The time samples of a screen cell start at the nominal start plus the per-cell delays in the same index convention and sample k is k*dt later.",
 ["inputs", "configurations"], "all positions, pitch vectors, delays; all small grid sizes, odd and even",
 "Tests use one screen with symmetric odd grid or inspect only the centre cell.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/source_screen.cpp"], [("grid geometry", "CellPosition/CellTimeZero")])
prop("C14", "Observers record the source field once per cell and time sample",
 "For screens, snapshots, meshes and point observers every cell adds to what it already holds (snapshots: takes) exactly the source's field at that cell's position and sample times, or the field trace the particles deliver for that position and timing, each source contributing once, no cell or sample skipped or mixed with another one, and the total for a beam being the sum over its bunches and particles.",
 ["inputs", "configurations"], "all source field functions (uninterpreted function of time and place for external fields), all small grid sizes",
 "Tests check selected cells of one observer for smooth fields.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/beam.cpp", "src/bunch.cpp"], [("integration loops", "integrate() of the observers")])
prop("C15", "Shifting and mirroring particles are exact isometries",
 "Displacing a particle moves every stored trajectory point and the current position by exactly the given vector and nothing else; mirroring reflects position, momentum and acceleration of every stored point and of the current state about the plane, preserves speeds and is undone by mirroring again. The charge is scaled by the given factor, so the produced field scales and mirrors accordingly.",
 ["inputs"], "all trajectories of 1..3 points, planes (any non-zero normal), displacements and factors",
 "No test calls these operations.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"], [("trajectory transformation", "ChargedParticle::Shift, ChargedParticle::Mirror")])
prop("C16", "Lattice fields superpose and local fields move with their element",
 "The field of a lattice is the sum of the fields of all its elements at any time and place, independent of their order; adding and removing elements changes it by exactly that element, and wrong indices are rejected. Placing an element at another position or start time shifts its field in space and time without altering it.",
 ["inputs", "configurations"], "all element fields (arbitrary functions), up to 4 elements, all positions and times",
 "Tests use lattices with one or two elements at default positions.",
 ["src/fields.cpp", "src/fields.h"], [("superposition", "Lattice::Field/addField/remove/at"), ("local frame", "LocalizedField::Field")])
prop("C17", "Planar undulator field is physical and confined",
 "The planar undulator field has no electric part, is periodic along z with the given peak field on axis and period, satisfies div B = 0 and curl B = 0 everywhere in its flat region, is continuous including the matching ramps of one period at both ends, and vanishes outside the device length of N+1 periods, for any period, strength and number of periods.",
 ["inputs"], "all field points, peak fields, periods; several period numbers",
 "Tests track single particles on or near the axis through one device.",
 ["src/undulator.cpp"], [("planar undulator", "PlanarUndulator::LocalField")])
prop("C18", "Transverse-gradient undulator field is physical and confined",
 "The transverse-gradient undulator has no electric part, reduces to the planar field without gradient (kx=0) and modulation, has on its mid-plane a field proportional to sin(kz z) (1 + sin(kx x)) times the configured pole modulation 1 + mod sin(kz z), satisfies div B = 0 and curl B = 0 in its flat region without pole modulation, is continuous through the end ramps and vanishes outside the device.",
 ["inputs"], "all field points and parameters; several period numbers",
 "No test exercises the gradient terms.",
 ["src/undulator.cpp"], [("transverse gradient undulator", "TransverseGradientUndulator::LocalField")])
prop("C19", "Dipole fields are confined, continuous and Maxwellian",
 "The hard-edge dipole has exactly the given field between its two pole-face planes and none outside, for any position, normals and field vector. The soft-edge dipole's field is the given vector times max(0, 1 - f(d1/t1) - f(d2/t2)) with the documented arctan edge profile f of the signed distances d from the two pole faces (75% to 25% over the transition length t): full field deep inside, half at a single face, zero far outside both faces, never reversed, and both faces behave symmetrically (unit face normals).",
 ["inputs"], "all field points, face positions and orientations, field vectors and fringe lengths",
 "The magnet test follows a few trajectories through one magnet.",
 ["src/dipole.cpp"], [("hard and soft edge dipoles", "HardEdgeDipole::LocalField, SoftEdgeDipole::LocalField")])
prop("C20", "Optical beams are paraxial Gaussian waves travelling at c",
 "The Gaussian wave and wave packet have the specified peak amplitude, wavelength, waist and polarization at the focus, spread with the Rayleigh length, carry E perpendicular to B with |E| = c|B| travelling along +z, have amplitude w0/w, radius w(z), wavefront curvature and phase of a paraxial beam (without Gouy phase) on all points, and the packet envelope moves with c and has the given duration.",
 ["inputs"], "all field points, times, amplitudes, wavelengths, Rayleigh ranges and packet lengths",
 "Tests use one laser in one modulator and look at the final particle energies.",
 ["src/wave.cpp"], [("Gaussian beams", "GaussianWave::LocalField, GaussianWavePacket::LocalField")])
prop("C21", "1D FEL field propagates losslessly and stays inside its grid",
 "Without beam the gridded 1D FEL field obeys the discrete one-dimensional wave equation on the co-moving grid; cells the head of the pulse has not influenced yet are carried on unchanged, nothing travels faster than light through the grid. With beam every step adds a contribution that is linear in the particle charges, each particle driving exactly the cells at its own longitudinal position, and energy only enters through transverse motion. The field seen by a particle is the interpolated grid field in polarization direction. No field configuration or particle position can make it read or write outside of the grid; positions outside the grid and setups that do not match the time step are rejected. The log contains the field at every n-th step.",
 ["inputs", "histories"], "all field values, particle positions, momenta, modes and directions; small grids, a few steps",
 "The fel1d test runs one modulation case and checks the final modulation amplitude.",
 ["src/fel1d.cpp", "src/fel1d.h"], [("1D field solver", "FEL_1D::step, FEL_1D::Field")])
prop("C22", "Distributions and bunches conserve charge and particle number",
 "Any generated or constructed bunch carries exactly the requested number of particles and total charge, with each particle's coordinates taken from its own entry of the distribution; sub-selecting, sorting and correlating distributions only touches the addressed coordinates and particles, and out-of-range coordinates are rejected.",
 ["inputs", "configurations"], "all coordinate values, up to 4 particles, all coordinate indices",
 "Tests sample a random bunch once and look at its moments.",
 ["src/bunch.cpp"], [("phase space handling", "Distribution::*, Bunch constructors, addCorrelation")])
prop("C23", "Bunch statistics are the moments they claim to be",
 "For non-empty bunches the reported mean positions and momenta, rms values, mean energy, energy spread and bunching factors of a bunch or beam equal the charge-independent particle averages of the current coordinates, rms values are never negative or undefined, the bunching factor lies between 0 and 1 and shifts of all coordinates change averages accordingly and leave spreads unchanged.",
 ["inputs"], "all particle coordinates; bunches of 1..3 particles",
 "The bunch test compares moments of one random sample with 1% tolerances.",
 ["src/bunch.cpp", "src/beam.cpp"], [("moments", "Bunch::avg*, rms*, BunchingFactor")])
prop("C24", "Particle dumps contain every particle with correct units and charge",
 "Particle files written at a watch point contain one record per particle of all bunches, in order, with its time, position and momentum, and the total charge in Coulomb. Reading a particle file as a bunch (columns x, xp, y, yp, p, t; parameters Particles and Charge) creates one particle per record sharing the charge equally, each with its own momentum along its own direction and placed where it is at the common mean time; files lacking required data are rejected.",
 ["inputs", "configurations"], "all particle coordinates and charges; beams of up to 3 particles in up to 2 bunches",
 "No test inspects the written file except for a few HDF5 columns.",
 ["src/beam.cpp", "src/bunch.cpp"], [("watch points", "WriteWatchPointSDDS/HDF5"), ("import", "Bunch constructor from file")])
prop("C25", "Diffraction from a source screen is causal, linear and isometric",
 "The field radiated by a recorded source screen is the Kirchhoff integral of the transverse part of its cell traces, each interpolated at its own retarded time: linear in the recorded data, built only from samples whose light has arrived, the same in any placement of the screen in space and time (moving and rotating screen and observer together rotates the field), zero from a cell before and after its recorded pulse.",
 ["inputs", "configurations"], "all recorded samples, observation points and times; 1..2 cells, 2..3 samples; all orthogonal screen placements",
 "The diffraction test uses one Gaussian pulse on one axis-parallel screen.",
 ["src/source_screen.cpp"], [("Kirchhoff sum", "SourceScreen::LocalField, constructor")])
prop("C26", "Mesh screens have consistent cell geometry",
 "Each mesh cell has a right-handed orthonormal local frame whose normal is perpendicular to the triangle, the area of the triangle, and a neighbourhood consisting of exactly the cells sharing a corner with it (itself included); the incident energy is the sum over cells of area times inward energy flow. This holds for every non-degenerate mesh in any orientation whose normals are within 44 degrees of their average.",
 ["inputs", "configurations"], "all corner coordinates of small meshes, all orientations",
 "No test builds a mesh screen.",
 ["src/mesh.cpp"], [("mesh setup", "MeshedScreen::init, get_Neighbourhood, totalEnergy")])
prop("C27", "Observer files reproduce the recorded fields",
 "The files written for screens, snapshots, meshes and point observers contain all field samples in cell order together with the geometry and timing they belong to; a mesh screen read from such a file has exactly the written geometry, timing and fields; a source screen has the written grid, time step, delays and transverse fields (the recorded place and start time are replaced by the given ones by design). Incomplete or inconsistent files are rejected.",
 ["inputs", "configurations"], "all sample values and geometry values; small grids",
 "Tests do not read the files back except one field plot.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/source_screen.cpp"], [("file output", "generateOutput/WriteFieldHDF5/writeFile and file constructors")])
prop("C28", "Loggers record exactly the requested steps",
 "A logger records the state at start and then at exactly every n-th step, in order, with the values the beam has at that moment, and writes all of its records; nonsensical step sizes never crash the run.",
 ["inputs", "histories"], "all step sizes and step counts within the bound; all beam coordinates",
 "Tests check one log file row.",
 ["src/logger.cpp", "src/logger.h"], [("loggers", "ParameterLogger, TrajectoryLogger, ProbeLogger")])
prop("C29", "Result does not depend on the number of compute nodes",
 "For any number of nodes every particle of the beam is tracked on exactly one node, the gathered beam contains all particles in their original order at every step, and combined observer fields are the sum over all particles, so files are the same as in a single-node run.",
 ["configurations", "schedules"], "node counts 1..3, up to 4 particles in up to 2 bunches; all particle coordinates, dynamics and fields",
 "All tests run on a single rank.",
 ["src/teufel_hybrid.cpp", "src/beam.cpp"], [("distribution and gathering", "main()")])
prop("C30", "Parallel field computation has no data races",
 "The multi-threaded observation loops access no memory from two threads without synchronisation if one of them writes it (the progress message after a minute of computation excepted), and the recorded fields are those of the sequential computation for any number of threads and any distribution of the cells.",
 ["schedules"], "teams of 1..4 threads with all pairs of their accesses in every barrier interval, all observers; all field values, positions and times",
 "A test run samples one schedule.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp"], [("OpenMP loops", "integrate() of the observers")])
prop("C31", "Input file values reach the simulated objects unchanged",
 "Every beam, lattice, tracking and observer attribute of the input file, including values computed by calc expressions from previously defined variables, determines the corresponding parameter of the simulated object with the documented unit and default, independent of the order of child elements and of attributes; elements appear in the order of the input; missing mandatory, unknown or malformed entries are rejected with an error (expressions which cannot be evaluated are reported and count as zero, as documented).",
 ["inputs", "configurations"], "all attribute values; each element type of the input language",
 "The three XML tests use one value per attribute.",
 ["src/parser.cpp"], [("input parser", "InputParser::parse*")])
prop("C32", "Vector operations form Euclidean vector algebra",
 "Sums, differences, scaling, dot and cross product, norm, normalization and rotation into another frame obey the laws of Euclidean vector space and leave their operands unchanged.",
 ["inputs"], "all component values",
 "Tests never check the algebra itself.",
 ["src/vector.cpp"], [("vectors", "Vector::*")])
prop("C33", "Trajectory interpolation in time stays on the trajectory",
 "Asking for a particle's coordinates at any time gives the stored point at stored times, the linear interpolation between the two neighbouring points otherwise, and zero outside of the tracked time span, for any trajectory.",
 ["inputs"], "all trajectories of 0..4 points with increasing times, all query times",
 "No test interpolates coordinates except snapshots of one case.",
 ["src/particle.cpp", "src/snapshot.cpp"], [("bisection and interpolation", "ChargedParticle::CoordinatesAtTime")])
prop("C34", "Free-space propagation and reflection tools are linear and causal",
 "The stand-alone programs propagating recorded fields from mesh to mesh compute for each target cell the Kirchhoff integral of the source fields, linear in the source and built only from light that has arrived.",
 ["inputs"], "all source fields and mesh geometries",
 "No test runs these programs.",
 ["src/propagate.cpp", "src/reflection.cpp"], [("main programs", "main()")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
