import importlib, os, glob
PROPS = {}
NOT_APPLICABLE = {}
def prop(pid, **kw): PROPS[pid] = kw
def case(entry, **kw): return dict(entry=entry, **kw)

prop("C32", harness="c32.cpp", sources=["vector.cpp"],
  bounds="none on the component values (all reals)",
  cases=[case("h_algebra", reach=["algebra"]), case("h_isnull", reach=["null", "notnull"]), case("h_div", reach=["div"]), case("h_norm", reach=["norm"]), case("h_triangle", reach=["cs"]), case("h_root", reach=["root"]), case("h_transform", reach=["transform"])])

PTC = ["particle.cpp", "vector.cpp", "fields.cpp", "fieldtrace.cpp", "global.cpp"]
prop("C01", harness="c01.cpp", sources=PTC, bounds="one or two steps from an arbitrary state (inductive over any number of steps); all real values",
  cases=[case("h_step", reach=["step"]), case("h_two", reach=["two"]), case("h_init", reach=["init"]), case("h_uninit", reach=["uninit"])])
prop("C02", harness="c01.cpp", sources=PTC, bounds="one step from an arbitrary state, up to 4 steps without field; all real values",
  cases=[case("h_step", reach=["step"]), case("h_init", reach=["init"]), case("h_magnetic", reach=["mag"]), case("h_crossed", reach=["crossed"]), case("h_free", reach=["free"]), case("h_record", reach=["record"]), case("h_indices", reach=["idx"])])
prop("C04", harness="c04.cpp", sources=PTC, defs=["-DVF_NP=2", "-DVF_NT=3"], bounds="all real charges, positions, momenta, accelerations and observation points (source and observer apart)",
  cases=[case("h_lw", reach=["lw"]), case("h_index", reach=["index"]), case("h_rest", reach=["rest"]), case("h_charge", reach=["charge"])])
prop("C05", harness="c04.cpp", sources=PTC, defs=["-DVF_NP=2", "-DVF_NT=3"], bounds="trajectories of up to 3 points; before the start of the trajectory: momentum along a coordinate axis, any direction and distance of the observer; within the trajectory: source points on a line with the observer, any momenta and accelerations",
  cases=[case("h_before", reach=["before"]), case("h_within", reach=["inside", "passed"]), case("h_offaxis", reach=["offaxis"]), case("h_empty", reach=["empty"])])
prop("C06", harness="c04.cpp", sources=PTC, defs=["-DVF_NP=2", "-DVF_NT=6"], thorough_defs=["-UVF_NP", "-DVF_NP=3", "-UVF_NT", "-DVF_NT=8"], bounds="2-3 samples, trajectories of 2 points (thorough: 3) observed on axis, all positions of the arrival times relative to the bins, any accelerations",
  cases=[case("h_trace", reach=["trace"]), case("h_trace_rounding", reach=["rounding"]), case("h_trace_short", reach=["short"])])

TR = ["fieldtrace.cpp", "fields.cpp", "vector.cpp", "global.cpp"]
prop("C07", harness="c07.cpp", sources=TR, bounds="traces of 0..5 samples, any real start time, step, field values, factors and axes; times up to 2e9 steps away from the window",
  cases=[case("h_basic", reach=["basic"]), case("h_reject", reach=["reject"]), case("h_reject_acc", reach=["acc"]), case("h_interp", reach=["interp"]), case("h_far", reach=["far"]), case("h_ops", reach=["ops"]), case("h_energy", reach=["energy"]),
         case("h_derivative", reach=["derivative", "short"]), case("h_cancel", reach=["cancel"]), case("h_transform", reach=["transform"]), case("h_buffer", reach=["buffer"]), case("h_field", reach=["field"])])
prop("C08", harness="c07.cpp", sources=TR, bounds="1..2 source and target samples; any real timings and delays",
  cases=[case("h_retard", reach=["retarded"]), case("h_retard_reject", reach=["accepted", "rejected"])])

import os as _os
FIO = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "harness", "fakeio.cpp")
BEAM = ["beam.cpp", "bunch.cpp", "logger.cpp", "particle.cpp", "fieldtrace.cpp", "fields.cpp", "vector.cpp", "global.cpp", FIO]
SUM = case("h_sum", reach=["sum"], harness="beam.cpp", sources=BEAM); PROPS["C05"]["cases"].append(SUM); PROPS["C06"]["cases"].append(SUM)
def beam(pid, bounds, cases, **kw): prop(pid, harness="beam.cpp", sources=BEAM, bounds=bounds, cases=cases, thorough_defs=["-DVF_DEEP"], **kw)
beam("C03", "beams of 0..2 bunches (thorough: 3) with 0..2 particles each in arbitrary states, arbitrary (uninterpreted) fields, any time step, two steps from the start and one step from any state",
  [case("h_track", reach=["track"]), case("h_resume", reach=["resume"]), case("h_method", reach=["rejected", "vay"]), case("h_clear", reach=["clear"])])
beam("C09", "particles with 0..3 trajectory points in any state, before and during tracking; bunches of 0..3 particles",
  [case("h_copy", reach=["copy"]), case("h_bunchcopy", reach=["bunchcopy"]), case("h_serialize", reach=["serialize"]), case("h_serializetraj", reach=["serializetraj"])])
beam("C10", "beams of 0..2 bunches (thorough: 3) with 0..2 particles each, any coordinates, any step count", [case("h_stepbuf", reach=["stepbuf"]), case("h_stepself", reach=["stepself"])])
beam("C11", "beams of 0..3 bunches with 0..2 particles each, requests of 0..7 particles; probe files of two records", [case("h_probe", reach=["probe"]), case("h_probelog", reach=["probelog"])])
beam("C15", "trajectories of 0..3 points in any state, any displacement, any plane, any factor", [case("h_shift", reach=["shift"]), case("h_mirror", reach=["mirror"]), case("h_mirror_twice", reach=["twice"]), case("h_shift_track", reach=["shift_track"])])
beam("C33", "trajectories of 0..5 points (thorough: 7) with strictly increasing times, any query time", [case("h_coord", reach=["coord"])])
def io(pid, bounds, cases, **kw): prop(pid, harness="io.cpp", sources=BEAM, bounds=bounds, cases=cases, thorough_defs=["-DVF_DEEP"], **kw)
io("C22", "distributions of 1..3 coordinates and 0..3 particles, bunches of 0..3 particles, coordinate and particle indices from -1 to one beyond the end",
  [case("h_dist", reach=["dist"]), case("h_dist_buffer", reach=["dbuf"]), case("h_dist_random", reach=["random"]), case("h_bunch_ctor", reach=["ctor"]), case("h_bunch_dist", reach=["bdist"]), case("h_correlation", reach=["correlation"])],
  trust="the random numbers themselves are concrete (fixed seed)")
io("C23", "bunches of 1..3 particles with any coordinates and a non-zero mean momentum", [case("h_stat", reach=["stat"]), case("h_stat_shift", reach=["shifted"]), case("h_stat_rounding", reach=["rounding"])])
io("C24", "beams of 0..2 bunches (thorough: 3) with 0..2 particles each; files of 1..2 (thorough: 3) particles read along the coordinate axes, file names of 98..140 characters",
  [case("h_watch_sdds", reach=["watch"]), case("h_watch_bunch", reach=["watchb"]), case("h_watch_hdf5", reach=["watchh"]), case("h_read", reach=["read"]), case("h_read_bad", reach=["bad"]), case("h_read_name", reach=["name"])],
  trust="in-memory stand-in for the SDDS and HDF5 libraries")
io("C28", "bunches of 0..3 particles, 0..3 recorded states; all step numbers up to 2^31-1, recorded ones for all step sizes, the others for 20 step sizes between 0 and 2^31-1",
  [case("h_paramlog", reach=["paramlog"]), case("h_trajlog", reach=["trajlog"]), case("h_manyrecords", reach=["many"]), case("h_requested", reach=["requested"])],
  trust="in-memory stand-in for the SDDS and HDF5 libraries")
LAT = ["fields.cpp", "undulator.cpp", "dipole.cpp", "wave.cpp", "vector.cpp", "global.cpp"]
def lat(pid, bounds, cases, **kw): prop(pid, harness="lattice.cpp", sources=LAT, bounds=bounds, cases=cases, thorough_defs=["-DVF_DEEP"], **kw)
lat("C16", "lattices of 0..4 elements whose fields are arbitrary (uninterpreted) functions of time and place, any removal index; all real times, places and offsets",
  [case("h_lattice", reach=["lattice"]), case("h_localized", reach=["localized"]), case("h_elements", reach=["element"]), case("h_fields", reach=["fields"])])
lat("C17", "1..3 periods (thorough: 6), all real field strengths, periods, positions, times and points of observation", [case("h_planar", reach=["outside", "flat", "ramp"]), case("h_maxwell", reach=["maxwell"])],
  trust="sin, cos, sinh, cosh as symbols with their algebraic and differential relations")
lat("C18", "1..3 periods (thorough: 6), all real field strengths, gradients, modulations, periods, positions, times and points of observation", [case("h_tgu", reach=["outside", "flat", "ramp"]), case("h_tgu_plain", reach=["plain"]), case("h_maxwell", reach=["maxwell"]), case("h_gradient", reach=["gradient"])],
  trust="sin, cos, sinh, cosh as symbols with their algebraic and differential relations")
lat("C19", "all real field vectors, planes, transition lengths and points", [case("h_hard", reach=["inside", "outside"]), case("h_soft", reach=["soft"]), case("h_soft_profile", reach=["profile"]), case("h_soft_wedge", reach=["wedge"])],
  trust="atan as a symbol, evaluated at given points")
lat("C20", "all real wavelengths, amplitudes, Rayleigh lengths, durations, times and points", [case("h_wave", reach=["wave"]), case("h_packet", reach=["wave"]), case("h_wave_focus", reach=["focus"])],
  trust="exp, sin, cos as symbols")
OBS = ["beam.cpp", "bunch.cpp", "fieldtrace.cpp", "fields.cpp", "vector.cpp", "global.cpp", "screen.cpp", "snapshot.cpp", "mesh.cpp", "point_observer.cpp", FIO]
def obs(pid, bounds, cases, **kw): prop(pid, harness="obs.cpp", sources=OBS, bounds=bounds, cases=cases, thorough_defs=["-DVF_DEEP"], **kw)
obs("C12", "all field values on grids up to 3x3x2 (screen), 4x4 (snapshot), 5 samples (point), 3 cells x 3 samples (mesh); announced sizes for every grid of up to 2^20 per dimension; import sizes 0..2^20", [case("h_buf_screen", reach=["buffer"]), case("h_buf_snap", reach=["buffer"]), case("h_buf_point", reach=["buffer"]), case("h_buf_mesh", reach=["buffer"]), case("h_huge", reach=["huge"])])
obs("C13", "all centres, pitch vectors, start times, delays; grids of 1..3 x 1..3 cells, 1..2 samples", [case("h_screen", reach=["screen"]), case("h_snap", reach=["snap"])])
obs("C14", "fields of up to 2 contributions (lattice elements or particles in up to 2 bunches) as uninterpreted functions of time and place; grids of 1..3 x 1..3 cells, meshes of 1..3 cells, 1..4 samples", [case("h_screen", reach=["screen"]), case("h_snap", reach=["snap"]), case("h_point", reach=["point"]), case("h_mesh", reach=["mesh"]), case("h_source", reach=["source"])])
obs("C27", "all field samples, positions, timings; screens to 3x2x2, snapshots to 3x3 with up to 2 particles, 0..4 samples of a point, meshes of 1..3 cells with 0..2 samples", [case("h_file_screen", reach=["file"]), case("h_file_snap", reach=["file"]), case("h_file_point", reach=["file"]), case("h_file_mesh", reach=["file"]), case("h_mesh_bad", reach=["rejected", "accepted"]),
  case("h_replay", reach=["replay"], harness="diff.cpp", sources=OBS + ["source_screen.cpp"]), case("h_bad", reach=["rejected", "accepted"], harness="diff.cpp", sources=OBS + ["source_screen.cpp"])])
obs("C26", "all triangles in all orientations (rational rotation), alone or next to a second cell in 6 orientations with normals within 44 degrees of the average; neighbourhoods of all triangulations with up to 3 cells on 5 corners; energy of 2 cells with up to 2 arbitrary samples", [case("h_geometry", reach=["geometry"]), case("h_neighbours", reach=["neighbours"]), case("h_energy", reach=["energy"])])
DIF = dict(harness="diff.cpp", sources=OBS + ["source_screen.cpp"])
prop("C25", bounds="one cell: every orientation, place, time, distance, 2..3 samples; two cells: all distances and delays (away from sample instants by 0.1%); grids up to 3x3 with one set of distances and arbitrary samples", cases=[case("h_cell", reach=["before", "inside", "after"]), case("h_grid", reach=["grid"]), case("h_layout", reach=["layout"]), case("h_skew", reach=["skew"]), case("h_replay", reach=["replay"])], thorough_defs=["-DVF_DEEP"], **DIF)

XML = "-I" + _os.path.join(_os.path.dirname(FIO), "xmlinc")
ALL = ["parser.cpp", "fel1d.cpp", "source_screen.cpp", "undulator.cpp", "dipole.cpp", "wave.cpp", "beam.cpp", "bunch.cpp", "logger.cpp", "particle.cpp", "fieldtrace.cpp", "fields.cpp", "vector.cpp", "global.cpp", "screen.cpp", "snapshot.cpp", "mesh.cpp", "point_observer.cpp", FIO]
prop("C21", harness="fel.cpp", sources=ALL, defs=[XML], thorough_defs=["-DVF_DEEP"], bounds="grids of 2..5 cells (thorough: 7), 1..4 steps, up to 2 particles in 2 bunches; any time step, place, direction, polarisation, seed, mode, charges and states",
  cases=[case("h_field", reach=["cell", "rejected"]), case("h_carry", reach=["carry"]), case("h_reject", reach=["reject"]), case("h_default", reach=["default"]), case("h_drive", reach=["drive"]), case("h_wave", reach=["wave"]), case("h_outside", reach=["in", "out"]), case("h_file", reach=["file", "nofile"])],
  trust="cos, exp as symbols; stand-ins of pugixml, muParser and HDF5")

prop("C31", harness="parse.cpp", sources=ALL, defs=[XML], thorough_defs=["-DVF_DEEP"], bounds="one or two entries per section, each kind of lattice element, particle, bunch (1..3 particles), watch, interaction and observer with arbitrary numbers for every attribute, children in two orders; each mandatory part left out in turn",
  cases=[case(h, reach=[r]) for h, r in (("h_calc", "calc"), ("h_lattice", "lattice"), ("h_lattice_missing", "missing"), ("h_lattice_screen", "screen"), ("h_sections", "sections"), ("h_particle", "particle"), ("h_particle_missing", "missing"), ("h_bunch", "bunch"), ("h_bunch_logs", "logs"), ("h_sdds", "sdds"), ("h_tracking", "tracking"), ("h_observers", "observer"), ("h_observers_missing", "missing"))],
  trust="stand-ins of pugixml, muParser, HDF5 and SDDS; random numbers concrete; elementary functions as symbols")

HYB = [_os.path.join(_os.path.dirname(FIO), "particle_seq.cpp"), "beam.cpp", "bunch.cpp", "logger.cpp", "fieldtrace.cpp", "fields.cpp", "vector.cpp", "global.cpp", "screen.cpp", "snapshot.cpp", "mesh.cpp", "point_observer.cpp", FIO]
prop("C29", harness="hybrid.cpp", sources=HYB, defs=[XML, "-I" + _os.path.join(_os.path.dirname(FIO), "mpiinc")], thorough_defs=["-DVF_DEEP"], bounds="1..3 nodes, beams of 0..2 bunches with 0..4 particles in any state, 2 tracking steps (thorough: 3), one or three observers, one interaction; particle dynamics, radiation and fields as arbitrary functions",
  cases=[case("h_log", reach=["log"]), case("h_beamobs", reach=["beamobs"]), case("h_latobs", reach=["latobs"]), case("h_several", reach=["several"]), case("h_probe", reach=["probe"]), case("h_badinput", reach=["bad"])],
  trust="stand-ins of MPI (collective operations), pugixml, HDF5, SDDS, the input parser and the particle dynamics")

REAL = OBS[:2] + ["particle.cpp", "undulator.cpp", "dipole.cpp", "wave.cpp", "logger.cpp"] + OBS[2:]
def par(h, reach, harness="par.cpp", sources=OBS, **kw): return case(h, reach=[reach], harness=harness, sources=sources, **kw)
prop("C30", threads=True, thorough_defs=["-DVF_DEEP"], bounds="teams of 1..4 threads (thorough: 6) in 4 distributions and orders of execution, grids of up to 6 cells (thorough: 9), meshes of up to 4 cells",
  cases=[par("h_screen", "screen"), par("h_snap", "snap"), par("h_point", "point"), par("h_mesh", "mesh")] +
    [par("h_real_" + h, h, harness="parreal.cpp", sources=REAL) for h in ("screen", "snap", "point", "mesh")],
  trust="OpenMP run-time library as a model (work sharing, barriers, locks, reductions); interleavings within a barrier interval are covered by the absence of conflicting accesses")
