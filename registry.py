"""What each check builds and runs. Paths are relative to the repository under test."""
COMMON_DEFS = ["-std=c++17", "-DBUILD_FOR_LINUX", "-D_DEBUG", "-D_GLIBCXX_ASSERTIONS", "-include", "list"]
INC = ["-I{REPO}/include"]
EIG = INC + ["-I{REPO}", "-I/usr/include/eigen3"]
SETS = {
    "point": {"src": ["src/point.cpp"], "flags": INC},
    "geometry": {"src": ["src/geometry.cpp"], "flags": INC},
    "map": {"src": ["src/point.cpp", "src/level.cpp", "src/level_collector.cpp", "src/level_geometry.cpp", "src/radiomap.cpp", "src/barriers_geometry_builder.cpp"], "flags": INC},
    # altitude trilateration is Eigen-heavy: built without optimisation where it is not the subject
    "core_all": {"src": ["src/**/*.cpp"], "flags": EIG, "slow": {"trilateration.cpp": ["-O0", "-fno-sanitize=undefined"]}},
}
CHECKS = {}


def check(pid, harness, sets, rule, fallback=("core_all",), hflags=None, **kw):
    CHECKS[pid] = dict(harness=[harness], sets=list(sets), rule=rule, fallback_sets=list(fallback),
                       hflags=hflags if hflags is not None else EIG, **kw)


check("C01", "c01_geo.cpp", ["point"],
      "binding points and offsets from a structured generator (random, poles' vicinity, +-180 meridian, zero); non-trivial: both offsets non-zero")
check("C02", "c02_map.cpp", ["map"],
      "lists of 1-5 generated levels (polygons with holes, transmitters possibly shared between levels, reference points, graphs, any ring direction); non-trivial: at least 2 levels and 4 elements")
check("C03", "c03_barrier.cpp", ["map"],
      "walkable polygons with obstacles and polylines on an integer grid (exact rational oracle) and in generic position (long double oracle, contacts nearer than 1 um discarded); non-trivial: some walkable polygon covers the whole path")
check("C04", "c04_geometry.cpp", ["geometry"],
      "integer coordinate tuples (exact oracle), many axis-parallel/collinear/degenerate, plus real ones (long double oracle); non-trivial: properly crossing pair, or non-degenerate triangle")
SETS["knn"] = {"src": ["src/knn/knn_utils.cpp", "src/triangulation.cpp", "src/geometry.cpp"], "flags": EIG}
check("C05", "c05_triangulation.cpp", ["map", "knn"],
      "3-20 points (uniform, survey grid, corridor, ring, clusters; near-degenerate sets discarded) with random edge limit, and 1-4 levels of reference points; non-trivial: at least 5 points with 3 Delaunay triangles clear of the border, or at least 2 levels with triangulable points")
SETS["knn_pos"] = {"src": ["src/position_estimator/position_estimator_knn.cpp"], "flags": EIG}
check("C06", "c06_knn.cpp", ["map", "knn", "knn_pos"],
      "1-3 levels with simulated signal maps, sequences of 1-6 readings (own level, foreign, unknown, exact fingerprints, any order) and all KNN settings; non-trivial: at least one reading has a solution")
SETS["preproc"] = {"src": ["src/measurements/measurement_preprocessor.cpp", "src/vector3d.cpp"], "flags": EIG}
check("C07", "c07_window.cpp", ["map", "preproc"],
      "streams of 2-62 radio/sensor/satellite messages (times around window, retention and stop boundaries, gaps to 60 s) over a two-level map with a transmitter on both, all window/filter settings; non-trivial: at least 2 results and one averaging several readings")
SETS["level_est"] = {"src": ["src/level_estimator/*.cpp"], "flags": EIG}
SETS["vec"] = {"src": ["src/vector3d.cpp"], "flags": INC}
check("C08", "c08_level.cpp", ["map", "knn", "vec", "level_est"],
      "1-4 levels with shared and unmapped transmitters, reading sequences of 1-25 (favouring a drifting level, with unknown and empty ones) and detection sequences; non-trivial: two levels detected, or the reported level changed")
check("C09", "c09_barometer.cpp", ["map", "vec", "level_est", "knn"],
      "histories of up to eight phases of climbing, resting or descending with noise, foreign sensor samples and radio levels; non-trivial: at least one level change decided with both windows full")
SETS["sensor_fusion"] = {"src": ["src/sensor_fusion/*.cpp"], "flags": INC}
SETS["sa_pedometer"] = {"src": ["standalone_algorithms/pedometer/src/*.cpp"], "flags": ["-I{REPO}/standalone_algorithms/pedometer/include", "-Dnavigation_core=sa_pedometer"], "ns": "sa_pedometer"}
check("C10", "c10_pedometer.cpp", ["vec", "sensor_fusion", "sa_pedometer"],
      "accelerometer histories of up to six segments (rest, walking, shaking, spikes, free fall) with sampling from 10 to 450 ms, jitter, repeated timestamps and gaps at every window boundary; non-trivial: at least 3 steps (rest: at least 20 samples)",
      hflags=EIG + ["-I{REPO}/standalone_algorithms/pedometer/include"])
SETS["sa_filter"] = {"src": ["standalone_algorithms/complementary_filter/src/*.cpp"], "flags": ["-I{REPO}/standalone_algorithms/complementary_filter/include", "-Dnavigation_core=sa_filter"], "ns": "sa_filter"}
check("C11", "c11_orientation.cpp", ["vec", "sensor_fusion", "sa_filter"],
      "sensor histories of 1-121 messages of all kinds (plausible and noisy readings of a turning device, zero vectors, gaps at the azimuth lifetime), default and random gains; steady turns; static tilts after disturbances; non-trivial: at least 3 accelerometer and 3 gyroscope/magnetometer samples (turn over 1 rad; tilt over 0.2 rad on both axes)",
      hflags=EIG + ["-I{REPO}/standalone_algorithms/complementary_filter/include"])
SETS["polyfit"] = {"src": ["src/position_postprocessor/polynomial_fit.cpp"], "flags": INC}
check("C13", "c13_polyfit.cpp", ["polyfit"],
      "point sequences of five shapes (constant, polynomial, random, stairs, jump then standing) with gaps around the interval, degrees 0-3, all weights and shifts; sessions up to a day long; systems up to 6x6 incl. permutation-like ones; non-trivial: at least three least-squares predictions, moving target, or n >= 2")
SETS["post"] = {"src": ["src/position_postprocessor/position*.cpp", "src/position_postprocessor/navigation_time_smoother.cpp"], "flags": EIG}
check("C12", "c12_smooth.cpp", ["map", "geometry", "polyfit", "post"],
      "position histories (standing, walking, jittering, jumping; gaps around every limit; several areas with obstacles) through the smoothers alone and through the post-processor; non-trivial: at least two smoothed outputs and one restart, a moving pre-history, three fitted outputs, two interpolated outputs")
check("C14", "c14_fusion.cpp", ["map", "geometry", "polyfit", "post"],
      "histories of 1-41 steps of indoor and satellite positions (either, both, none; ages at the limit; any settings); non-trivial: at least two results decided by the deviations")
SETS["outdoor"] = {"src": ["src/position_estimator/position_estimator_outdoor.cpp"], "flags": EIG}
check("C15", "c15_outdoor.cpp", ["map", "outdoor", "vec"],
      "histories of 2-42 satellite fixes, satellite counts and other messages over 1-3 levels (ages around the validity window, accuracies around the limits, all settings); non-trivial: at least two accepted fixes")
check("C17", "c17_determinism.cpp", ["core_all"],
      "worlds of 1-3 levels, all settings, streams of up to ~250 messages of every kind from a walking person, and one transformation each; non-trivial: at least two outputs with a position")
check("C16", "c16_valid.cpp", ["core_all"],
      "worlds of 1-3 levels, all settings and streams of up to ~250 messages of every kind; single positions against route graphs of up to 8 edges; non-trivial: at least two outputs with a position, a turned device, or a projected or clamped point")
check("C20", "c20_zone.cpp", ["core_all"],
      "1-5 reading vectors (levels' own, foreign and unknown transmitters, ties, all signal kinds) on 1-3 levels with default or own path-loss settings, and client streams of up to ~25 single readings without averaging; non-trivial: some reading belongs to the level")
check("C25", "c25_stop.cpp", ["core_all"],
      "histories of 2-42 positions on two levels with steps, empty, old and outside ones (times around the detection and update limits), and client streams of up to ~600 messages in stop mode; non-trivial: a held and an updated position, or more than 5 held positions after a step")
check("C19", "c19_loss.cpp", ["core_all"],
      "up to 7 phases of signals of one level and of silence (lengths around the dead-reckoning, no-action and no-signal times, with walking, foreign and too weak signals, satellite fixes) on 1-3 levels with all settings; non-trivial: the level was withdrawn or dead reckoning ended")
SETS["sa_trilat"] = {"src": ["standalone_algorithms/trilateteration/src/trilateration.cpp", "standalone_algorithms/trilateteration/src/beacon.cpp"], "flags": []}
check("C22", "c22_trilat.cpp", ["sa_trilat"],
      "up to 10 beacons (ids that are prefixes of each other, shared coordinates) and up to 14 measurements with repetitions and unknown ids, single computations, related computations, histories of updates; non-trivial: at least three usable beacons (history: two solved computations)",
      fallback=("sa_trilat",), hflags=["-I{REPO}"])
SETS["sa_position"] = {"src": ["standalone_algorithms/position_estimation/src/*.cpp"], "flags": ["-I{REPO}/standalone_algorithms/position_estimation/include", "-Dnavigation_core=sa_position"], "ns": "sa_position"}
check("C23", "c23_nearest.cpp", ["sa_position"],
      "streams of 2-62 readings of up to 8 known and 3 unknown transmitters (times around the shift and retention boundaries, many simultaneous, strengths at the limits), all averaging settings; position histories for the smoother; reading lists with ties for the estimator; non-trivial: two results with averaging, three accepted positions, or two positions",
      fallback=("sa_position",), hflags=["-I{REPO}", "-I{REPO}/standalone_algorithms/position_estimation/include"])
check("C24", "c24_altitude.cpp", ["core_all"],
      "3-10 transmitters (one height or several), exact, noisy, wild and quantised (tied) ranges, any order, shift, turn; client runs with ranging readings; ill-conditioned constellations and ranges at the limit of consistency discarded; non-trivial: an altitude results")
check("C18", "c18_robust.cpp", ["core_all"],
      "maps of 0-3 levels with empty and degenerate areas, poles and the date line, duplicate and empty ids, loops in graphs, zero variances; all settings incl. zero, negative and huge; streams of up to ~250 messages of every kind with finite values up to 1.7e308, simultaneous and late messages, gaps to years; under AddressSanitizer and UndefinedBehaviorSanitizer with a 20 s limit per case; non-trivial: a position results or more than 20 outputs",
      fuzz={"seconds": 300, "max_len": 4096})
SETS["helpers"] = {"src": ["tools/verification/helpers.cpp"], "flags": EIG}
check("C21", "c21_parsers.cpp", ["map", "vec", "helpers"],
      "documents written by an own writer (order of keys, white space, number notation, escapes all drawn): logs of up to 25 lines of every documented type incl. comments, settings files with any subset of the documented keys, maps of up to 4 levels with holes, transmitters, reference points and graphs with shared corners, features interleaved; non-trivial: three kinds of line, five settings, three objects",
      fuzz={"seconds": 120, "max_len": 2048})
SETS["likelihood"] = {"src": ["src/likelihood/*.cpp"], "flags": EIG}
check("C26", "c26_likelihood.cpp", ["map", "knn", "likelihood"],
      "1-3 levels with simulated signal maps (some without fingerprints), sequences of 1-6 readings with 0-13 particles each and all KNN settings, weights asked before and after sampling; ranges around the exact distance; non-trivial: at least one reading with a solution and two particles, or two ranges")
check("C27", "c27_found.cpp", ["core_all"],
      "worlds of 1-3 levels, all KNN/zone/window settings, a person staying at 1-5 surveyed places in turn with the surveyed strengths in any order; satellite-only fixes; non-trivial: at least three outputs judged after settling, or one accepted fix")
check("C28", "c28_names.cpp", ["core_all"],
      "worlds of 1-3 levels, all settings, streams of up to ~200 messages of every kind and one transformation each: every level, transmitter and reference point renamed and relisted; the world put elsewhere on earth; the map turned or mirrored; buildings added far away; non-trivial: at least two outputs with a position")
check("C29", "c29_values.cpp", ["map", "vec", "sensor_fusion", "sa_pedometer", "sa_filter"],
      "pairs of vectors and quaternions with components 0, 1, g, up to 20 and up to 1e6 in size and down to 1e-6, angles over the whole range; graphs built by up to 31 operations incl. refused ones; up to 9 identifiers that are prefixes of each other or contain zero bytes; non-trivial: no zero operand, two edges, two different identifiers",
      hflags=EIG + ["-I{REPO}", "-I{REPO}/standalone_algorithms/complementary_filter/include"])
check("C30", "c30_states.cpp", ["core_all"],
      "worlds of 1-3 levels, all settings, streams of up to ~200 messages of every kind cut into batches in two ways, memory filled beforehand; walking streams with every step multiplier; streams without smoothing on maps of one frame; non-trivial: at least three states, two steps, or three indoor or satellite outputs")
check("C31", "c31_compose.cpp", ["core_all"],
      "worlds of 1-3 (rarely 10) levels, all settings, streams of up to ~200 messages of every kind in batches, some of them late; non-trivial: at least three positions reported; labels: several levels, satellites, fused, no position, turning, late within a batch and between batches")
check("C33", "c33_isolation.cpp", ["core_all"],
      "worlds, settings and streams as C31 (all signal kinds, ranging, rarely ranging-only); a second client differs in one or more of 36 groups of settings, map data and input values that no enabled feature uses (each applied only where its condition holds); non-trivial: at least three positions at different places; labels: the groups changed")
check("C34", "c34_threads.cpp", ["core_all", "sa_pedometer", "sa_position", "sa_filter", "sa_trilat"],
      "2-3 clients with settings and streams of their own (worlds as C31) on threads of their own over one shared map, half with a thread that only reads the map; one client handed from thread to thread; 2-3 users of all standalone parts; everything built with ThreadSanitizer; non-trivial: at least two clients report positions (handover: at least three positions and two threads)",
      san="thread", hflags=EIG + ["-I{REPO}", "-I{REPO}/standalone_algorithms/pedometer/include", "-I{REPO}/standalone_algorithms/position_estimation/include", "-I{REPO}/standalone_algorithms/complementary_filter/include"])
check("C32", "c32_bounded.cpp", ["core_all", "sa_pedometer", "sa_position"],
      "streams that repeat with a period of 1-40 s and any combination of message kinds, fed for at least 12 periods and 3000 messages before and after the comparison, all settings but stop mode; the standalone pedometer and position pipeline; non-trivial: more than ten positions or 50 messages per period",
      hflags=EIG + ["-I{REPO}", "-I{REPO}/standalone_algorithms/pedometer/include", "-I{REPO}/standalone_algorithms/position_estimation/include"])
