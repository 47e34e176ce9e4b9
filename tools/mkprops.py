#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NT = "The pinned tests never touch this code (they run one trilateration example and one static-tilt filter run); "

prop("C01", "Geographic to local conversion is metric and invertible",
 "For every binding point (latitude within +-85 degrees, any longitude) and every point within a few kilometres, converting to local metres gives east/north offsets that agree with the Earth circumferences (40 075 160 m times cos of the binding latitude, 40 008 000 m) to the millimetre, also across the +-180 degree meridian. Converting back returns the original coordinate, with longitude in (-180, 180], and the two conversions are inverse to each other in both directions.",
 ["inputs"], "every binding point and point pair, including antimeridian straddling and negative/southern coordinates",
 NT + "an off-by-one in the wrap or a swapped axis shows only near +-180 degrees or at high latitude.",
 ["src/point.cpp", "include/navigine/navigation-core/point.h"],
 [("gpsToLocal / localToGps / normalizeLongitude", "src/point.cpp")])

prop("C02", "Adding a map level keeps all its content, re-expressed in local metres",
 "After any sequence of geographic levels is added to the map, every level is found by its id and has its binding point at the minimum-latitude/minimum-longitude corner of its box; all of its transmitters, reference points with fingerprints, graph vertices and edges, walkable polygons (outer and inner rings) and bounding box are present exactly once with unchanged attributes and positions equal to the geographic-to-local conversion against that binding, transmitter height being level altitude plus transmitter altitude. Looking up a transmitter returns the first added level that contains it, and nothing is found for an unknown level or transmitter id.",
 ["inputs", "histories"], "every list of levels with any number of transmitters, reference points, graph elements and polygons with holes, in any insertion order",
 NT + "content loss or index mix-ups depend on the number and order of levels and elements.",
 ["src/level_collector.cpp", "src/level.cpp", "src/radiomap.cpp", "include/navigine/navigation-core/graph.h"],
 [("LevelCollector::addGeoLevel", "src/level_collector.cpp"), ("Level transmitter table", "src/level.cpp"), ("Radiomap index", "src/radiomap.cpp"), ("getGeometry", "src/barriers_geometry_builder.cpp")])

prop("C03", "Barrier test agrees with exact geometry",
 "A path is reported as touching barriers exactly when no single walkable polygon's outer ring covers the whole path, or when the path meets any inner ring (obstacle) of any walkable polygon, including obstacles it merely crosses without a vertex inside. The answer does not depend on the orientation of rings, on the order of polygons or obstacles, or on the direction in which the path is given.",
 ["inputs"], "every set of walkable polygons with obstacles and every polyline",
 NT + "crossing/containment errors depend on the relative position of path and obstacle, which is an infinite space.",
 ["src/level_geometry.cpp", "src/barriers_geometry_builder.cpp"],
 [("LevelGeometry::isPathTouchesBarriers with R-tree of obstacles", "src/level_geometry.cpp"), ("getGeometry ring correction", "src/barriers_geometry_builder.cpp")])

prop("C04", "Planar geometry primitives match their mathematical definition",
 "Distance, point-to-line and point-to-segment distance, oriented area, determinants, projection onto a line and segment intersection return the mathematically defined value for every finite input, with not-a-number for different levels, degenerate lines or non-intersecting segments, and segment crossing is reported for every properly crossing pair including axis-parallel ones and for no separated pair. Counting the edges a horizontal ray from a point meets decides whether the point lies inside a polygon, also when the ray runs through corners or along edges. All of them are invariant under translation and under swapping segment end points.",
 ["inputs"], "every finite coordinate tuple, including axis-parallel, collinear and degenerate configurations",
 NT + "sign and boundary errors appear only for particular configurations (axis-parallel, touching, degenerate).",
 ["src/geometry.cpp", "src/geometry.h"],
 [("GetDist/GetArea/Determinant/GetProjection/GetIntersection/CheckIntersection/SegmentPointDist/PointOnLine", "src/geometry.cpp")])

prop("C05", "Triangulation of reference points is a valid Delaunay triangulation",
 "For every set of distinct reference points in general position, each produced triangle uses three distinct input points, is non-degenerate, respects the maximum edge length, and contains no other input point inside its circumscribed circle; triangles do not overlap, and every Delaunay triangle of the set is produced unless it is too long or lies at the hull where the bounded construction may leave it out. The set of triangles does not depend on the order of the input points, and every level with enough reference points gets its triangles whatever other levels look like.",
 ["inputs", "configurations"], "every point set and maximum edge length; every list of levels",
 NT + "a wrong circumcircle or edge-cancellation test only corrupts some point sets.",
 ["src/triangulation.cpp", "src/triangulation.h", "src/knn/knn_utils.cpp"],
 [("TriangulateVertices (Bowyer-Watson)", "src/triangulation.cpp"), ("triangulate per level", "src/knn/knn_utils.cpp")])

prop("C06", "Fingerprint (k-nearest) positions follow the signal map",
 "The fingerprint position of a level is the weight-averaged location of the heaviest reference-point triangle (or of the k heaviest reference points), where a reference point that sees at least three of the measured transmitters is the heavier the smaller its transmitter-weighted mean signal mismatch and the more transmitters it sees, and others weigh nothing; so it lies inside the convex hull of reference points, and readings identical to one clear fingerprint select that point. It does not depend on the order of measurements, transmitters of other levels are ignored, and too few measurements or no usable reference point give no solution rather than an invented coordinate.",
 ["inputs", "configurations"], "every radiomap, measurement vector and setting of triangles / differential mode / k / minimum measurements",
 NT + "the quantifier ranges over all radiomaps and readings.",
 ["src/knn/knn_utils.cpp", "src/position_estimator/position_estimator_knn.cpp"],
 [("calcRpWeightsKnn", "src/knn/knn_utils.cpp"), ("calcPositionInTriangle / calcKHeaviestRefPointsAverage", "src/knn/knn_utils.cpp"), ("PositionEstimatorKnn::calculatePosition", "src/position_estimator/position_estimator_knn.cpp")])

prop("C07", "Radio signals are filtered and averaged over the configured window",
 "For every time-ordered stream (positive timestamps), a result is produced whenever at least one window shift has passed between the last valid reading and the reading at which the previous result was produced (initially the first one). It holds, per transmitter, the mean strength and mean distance of exactly the valid readings received since the previous result plus those of the (averaging time minus shift) before it, everything being kept while standing still if stops are used. Valid means: known transmitter (unless unknown ones are allowed), locator or not as tracking mode demands, enabled radio kind, strength strictly between cut-off and zero, and only round-trip-time readings in distance mode. Closest-transmitter mode keeps the configured number of strongest ones; distances follow the path-loss model of the known transmitter, or the mean of the measured round-trip distances minus the configured offset when any was measured.",
 ["histories", "configurations"], "every time-ordered history of radio/sensor messages and every averaging, shift, filter and stop setting",
 NT + "window boundary behaviour depends on the whole history of arrival times.",
 ["src/measurements/measurement_preprocessor.cpp"],
 [("MeasurementsPreprocessor::getValidSignalEntry", "src/measurements/measurement_preprocessor.cpp"), ("RadioMeasurementBuffer::extractMeasurements", "src/measurements/measurement_preprocessor.cpp"), ("MeasurementsPreprocessor::extractRadioMeasurements", "src/measurements/measurement_preprocessor.cpp")],
 [("measurement buffer", "valid readings not yet expired"), ("last extraction time", "time of the last emitted average")])

prop("C08", "Level detection picks the best-supported level and does not flicker",
 "For every vector of averaged readings the detected level is the one with the best support: by transmitters, the largest average strength (plus average transmit power if enabled) divided by one plus a tenth of the fraction of readings that belong to the level; by radiomap, the largest total similarity times the number of matched transmitters, or the best single reference point. Over any history the reported level is the first detected one and changes only to a level that has been detected five times since the last level was confirmed, and readings of no known level leave it unchanged.",
 ["histories", "inputs", "configurations"], "every map, sequence of reading vectors and level-estimation setting",
 NT + "hysteresis is a property of detection histories.",
 ["src/level_estimator/level_estimator_transmitters.cpp", "src/level_estimator/level_estimator_radiomap.cpp", "src/level_estimator/level_history.cpp", "src/level_estimator/level_estimator.cpp"],
 [("LevelEstimatorTransmitters::detectCurrentLevel", "src/level_estimator/level_estimator_transmitters.cpp"), ("LevelEstimatorRadiomap::detectCurrentLevel", "src/level_estimator/level_estimator_radiomap.cpp"), ("LevelHistory::detectLevelUsingHistory", "src/level_estimator/level_history.cpp")],
 [("per-level detection counters", "number of detections since last confirmation")])

prop("C09", "Barometer blocks level changes without a real height change",
 "With the barometer enabled and enough pressure samples collected, the reported level follows the radio-detected level only if the mean pressure of the recent samples differs from that of the preceding stored ones by more than two metres of height (isothermal barometric formula at 288 K), whether upwards or downwards, and stays at the last accepted level, if there is one, otherwise. Until enough samples are collected, with non-positive mean pressure history aside, the radio-detected level is followed unchanged, and samples of other sensors never count as pressure.",
 ["histories"], "every history of pressure samples, other sensor samples and radio-detected levels",
 NT + "the decision depends on two sliding windows of a hundred samples each.",
 ["src/level_estimator/barometer.cpp", "src/level_estimator/level_estimator.cpp"],
 [("Barometer::checkLevelChange / updateBuffers / updateLevel", "src/level_estimator/barometer.cpp")],
 [("two pressure windows", "about 100 recent and 100 preceding samples")])

prop("C10", "Step detection is physical: no phantom, double or negative steps",
 "For every accelerometer history a step is reported exactly at an upward crossing of the filtered magnitude over the threshold, with at least 300 ms between consecutive steps and strictly increasing step times taken from sample times; a resting device in any orientation produces no steps, and each step length is finite, non-negative and equal to 0.52 times the fourth root of the filtered magnitude range over the preceding 700 ms. Steps depend only on acceleration magnitude (device rotation, other sensors and a shift of the time origin change nothing), and the standalone pedometer reports the same steps as the navigation core.",
 ["histories"], "every time-ordered accelerometer history, sampling rate, walking pattern and device orientation",
 "The pedometer tests need log files that are absent and check only aggregate distance; threshold crossings depend on the whole history.",
 ["src/sensor_fusion/pedometer.cpp", "standalone_algorithms/pedometer/src/pedometer.cpp"],
 [("Pedometer::update / calculateFilteredAccMagnitudes / calculateSteps / calculateStepLength", "src/sensor_fusion/pedometer.cpp"), ("standalone Pedometer", "standalone_algorithms/pedometer/src/pedometer.cpp")])

prop("C11", "Orientation filter tracks gravity, north and rotation rate",
 "For every sensor history the fused orientation is finite and equals that of the documented complementary filter: unit-quaternion integration of the angular rate over the real time between gyro samples, correction toward measured gravity by the accelerometer gain, and heading correction by the magnetometer only while no gyro has been seen; a constant rotation about the vertical is integrated to the true angle, and a static device converges to its true tilt. Magnetic azimuth is tilt-compensated and in [-pi, pi), device azimuth counts as valid for exactly the configured lifetime, and the standalone filter agrees with the navigation core.",
 ["histories"], "every time-ordered accelerometer/gyroscope/magnetometer/orientation history",
 "The existing static-tilt test samples one fixed tilt, no rotation and no histories with mixed sensors.",
 ["src/sensor_fusion/complementary_filter.cpp", "src/sensor_fusion/quaternion.cpp", "src/vector3d.cpp", "standalone_algorithms/complementary_filter/src/complementary_filter.cpp"],
 [("ComplementaryFilter::update*", "src/sensor_fusion/complementary_filter.cpp"), ("Quaternion algebra", "src/sensor_fusion/quaternion.cpp"), ("SensorFusion::calculateDisplacement", "src/sensor_fusion/sensor_fusion.cpp")])

prop("C12", "Position smoothing is bounded, responsive and never runs away",
 "The alpha-beta smoother applied to any position history follows its recurrence (gain 0.9 down to 0.1 with smoothing 0 to 1, or by accuracy), restarts exactly at the measured position on first use, after more than ten seconds, when implied speed exceeds 4 m/s (if limited) or when the smoothed point leaves the walkable area (if used), and reproduces a constant position exactly. Least-squares smoothing reproduces any constant history and, at full weight, any uniform motion delayed by the window shift; time smoothing only interpolates between the last two positions; all stay finite, never drift away from a standing target and depend only on time differences.",
 ["histories", "configurations"], "every history of positions, time gaps and smoothing settings",
 NT + "drift and restart behaviour depends on the whole history.",
 ["src/position_postprocessor/position_smoother_ab.cpp", "src/position_postprocessor/position_smoother_lstsq.cpp", "src/position_postprocessor/navigation_time_smoother.cpp", "src/position_postprocessor/polynomial_fit.cpp"],
 [("PositionSmootherAB::smoothPosition", "src/position_postprocessor/position_smoother_ab.cpp"), ("PositionSmootherLstsq::smoothPosition", "src/position_postprocessor/position_smoother_lstsq.cpp"), ("NavigationTimeSmoother::getTimeSmoothedPosition", "src/position_postprocessor/navigation_time_smoother.cpp")])

prop("C13", "Polynomial fit is the least-squares solution",
 "For every sequence of time-ordered points the fitted polynomial predicts the least-squares value of the points inside the configured time interval, evaluated at the requested time minus the time shift and blended with the previous output by the configured weight; points on a polynomial of the fitted degree are reproduced exactly. The linear solver returns a solution of every well-conditioned square system, up to rounding.",
 ["inputs", "histories"], "every point sequence, degree, interval, shift and weight; every well-conditioned system",
 NT + "numerical correctness over all systems and windows is not sampled anywhere.",
 ["src/position_postprocessor/polynomial_fit.cpp"],
 [("PolynomialFit::addSequencePoint / predict", "src/position_postprocessor/polynomial_fit.cpp"), ("solveLinearSystem", "src/position_postprocessor/polynomial_fit.cpp")])

prop("C14", "Indoor and satellite positions are fused by their uncertainty",
 "For every history of indoor and satellite positions the fused result is: the satellite position in instant mode, the indoor one when preferred, unavailable satellite or satellite disabled, whichever one is not too old, the inverse-deviation weighted point on the segment between them when fusion is on and they agree within the sum of their accuracies plus the border, whatever levels (each with its own coordinate origin) the two were given on, and otherwise the one with the smaller estimated deviation. Deviations start at the prior, grow with average speed times age, are averaged with each new measurement and never exceed the prior by more than the measurement, so the weights stay in (0,1).",
 ["histories", "configurations"], "every history of indoor/outdoor positions (present, absent, old) and every fusion setting",
 NT + "the rule is a decision table over history-dependent deviations.",
 ["src/position_postprocessor/position_postprocessor.cpp"],
 [("PositionPostprocessor::fusePositions / fillIndoorOutdoorPositionStates", "src/position_postprocessor/position_postprocessor.cpp")])

prop("C15", "Satellite positions are accepted only when valid and recent",
 "A satellite fix is turned into a position only if it lies in the bounding box of some level (unless positions outside the map are allowed), its stated accuracy does not exceed the configured maximum, reported satellite numbers reach the configured minimum, and, with the sigma filter on, it lies within three standard deviations plus the configured delta of a full window of preceding fixes, measured on the ground whatever levels they lie on; its accuracy is never reported below the configured minimum. With no fix in hand the last accepted position is repeated only within the configured validity window and nothing is reported afterwards.",
 ["histories", "configurations"], "every history of fixes, satellite reports, other sensors and indoor availability, and every setting",
 NT + "acceptance depends on a sliding window of fixes and on elapsed time.",
 ["src/position_estimator/position_estimator_outdoor.cpp"],
 [("PositionEstimatorOutdoor::calculatePosition", "src/position_estimator/position_estimator_outdoor.cpp"), ("SigmaFilter::add", "src/position_estimator/position_estimator_outdoor.cpp")])

prop("C16", "Every reported position is well-formed and on the map",
 "For every message stream, one output is produced per accepted message, and each has either an error status and no position, or status OK with a provider, a finite non-negative radius, an orientation in [-pi, pi) and finite coordinates on an existing level; unless satellite positions outside the map are allowed, the point lies inside the bounding box of its own level (up to the rounding to centimetres), and indoor and fused positions are rounded to whole centimetres of the level's frame; a satellite position never has a radius below the configured minimum. With graph projection, positions within the projection distance of their own level's route graph are reported on the nearest graph edge; with the east-based convention the orientation is the mirrored north-based one.",
 ["histories", "configurations"], "every map, setting and message stream",
 NT + "outputs depend on the whole pipeline state and the full configuration space.",
 ["src/navigation_client_impl.cpp", "src/position_postprocessor/position_postprocessor.cpp"],
 [("NavigationClientImpl::navigate output filling", "src/navigation_client_impl.cpp"), ("PositionPostprocessor::getProcessedPosition clamping, graph projection, rounding", "src/position_postprocessor/position_postprocessor.cpp")],
 None, ["NavigationOutput"])

prop("C25", "A standing user's position is held still",
 "With stop mode on, when the last step is at least the detection time ago, the reported position (coordinates, level, provider, radius) is repeated unchanged, except that a new position nearer than the distance threshold is taken over when more than the update time has passed since the last such takeover. As soon as steps are detected again, before any step was ever detected, with stop mode off, and when nothing has been reported yet, every usable new position is passed on. Empty, outdated and off-map positions are reported as no position.",
 ["histories", "configurations"], "every history of positions and steps, every detection time, update time and threshold",
 NT + "the decision depends on three clocks and on the last reported position.",
 ["src/position_postprocessor/position_postprocessor.cpp"],
 [("PositionPostprocessor::getProcessedPosition stop handling", "src/position_postprocessor/position_postprocessor.cpp")])

prop("C17", "Navigation is deterministic, batch-independent and isolated per client",
 "The outputs for a message stream depend only on the map, the settings and the stream: repeated runs, uninitialised memory contents, other clients working on the same map, splitting the time-ordered stream into batches in any way and adding a constant to all timestamps change nothing, and out-of-order messages inside a batch have no effect at all. A message without usable content (unknown transmitter, strength outside the accepted range) carries only its time: it can be replaced by any other such message, and with a positive averaging time one at the time of the message before it changes no other output.",
 ["histories", "schedules", "configurations"], "every stream, batch split, interleaving of clients and timestamp origin",
 NT + "hidden state or uninitialised reads show only for particular memory contents or splits.",
 ["src/navigation_client_impl.cpp", "src/measurements/measurement_preprocessor.h", "src/sensor_fusion/complementary_filter.h"],
 [("NavigationClientImpl::navigate", "src/navigation_client_impl.cpp"), ("member initialisation of preprocessor, filter, state", "src/measurements/measurement_preprocessor.h")])

prop("C18", "No message stream can crash or hang navigation",
 "For every map with distinct level identifiers, every setting and every message stream whose numbers are finite (including extreme values, empty identifiers, unknown transmitters, levels without content, degenerate areas, zero windows and empty maps; times from 0 to 10^15 ms), building the client and navigating return in bounded time without exception, failed assertion, undefined behaviour or memory error, and the number of outputs equals the number of accepted messages (those not older than an earlier one of their batch).",
 ["inputs", "histories", "configurations"], "every finite-valued stream, configuration and map",
 NT + "robustness is universally quantified over inputs.",
 ["src/navigation_client_impl.cpp", "src/sensor_fusion/complementary_filter.cpp", "src/position_estimator/position_estimator_outdoor.cpp", "src/knn/knn_utils.cpp"],
 [("NavigationClientImpl::navigate and everything below it", "src/navigation_client_impl.cpp")])

prop("C19", "Loss of signal withdraws the indoor level, return of signal restores it",
 "When no valid radio signal arrived for at least the no-signal time, or neither a signal nor a step (once steps were detected) for at least the no-action time, no level is known: without a satellite position the output stays at the last reported position or, if the last output had none, reports that no level is known; a satellite fix is reported as it is. Otherwise, once detected, a level stays known, and without satellite positions a position is reported only while the last signal is younger than the dead-reckoning time and an error status afterwards. When signals of a level arrive steadily again, that level and an indoor position on it are reported after at most the averaging time and seven windows (zone positioning, levels without common transmitters).",
 ["histories", "configurations"], "every history with gaps of arbitrary length and every timeout setting",
 NT + "timeouts depend on elapsed time since the last valid signal.",
 ["src/navigation_client_impl.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/measurements/measurement_preprocessor.cpp"],
 [("no-signal threshold in navigate", "src/navigation_client_impl.cpp"), ("dead reckoning check in getProcessedPosition", "src/position_postprocessor/position_postprocessor.cpp")])

prop("C20", "Zone positioning reports the strongest known transmitter",
 "For every reading vector, zone positioning on a level returns the location of the level's transmitter with the strongest reading, with radius one plus the square root of the path-loss distance of that reading under the level's parameters (the defaults where none are set), stamped with the current time and marked indoor. Readings of other levels are ignored, order does not matter when strengths differ, and with no reading of the level there is no solution and no position.",
 ["inputs", "configurations"], "every map, level parameters and reading vector",
 NT + "the choice depends on the whole reading vector and map.",
 ["src/position_estimator/position_estimator_zone.cpp", "src/level.cpp"],
 [("PositionEstimatorZone::calculatePosition", "src/position_estimator/position_estimator_zone.cpp"), ("getLevelRadioMeasurements", "src/level.cpp")])

prop("C21", "Maps, logs and settings are read back exactly",
 "For every map document, measurement log and settings file in the documented format, loading yields exactly what the file describes: every level with its transmitters (id, kind, place, path-loss parameters or their defaults), reference points with the statistics of their fingerprints, route graph (each corner one vertex, corners closer than 0.1 m being one corner) and walkable area with holes; the measurements of the log in file order, each with its own kind, time and all documented fields, comment lines contributing none; and settings equal to the file's values under the documented names, with defaults for absent keys and unknown keys ignored. Order of keys and features, white space and notation of numbers and strings do not matter; a missing settings file is reported.",
 ["inputs", "programs"], "every well-formed document",
 NT + "parser faithfulness is quantified over all documents.",
 ["tools/verification/helpers.cpp", "include/navigine/navigation-core/README.md", "include/navigine/navigation-core/navigation_settings.h"],
 [("GetNavMessages, CreateSettingsFromJson, ParseGeojson, parseGraph, parseReferencePoint, parseTransmitter, parseLevel", "tools/verification/helpers.cpp")])

prop("C22", "Standalone trilateration stays among its beacons and is repeatable",
 "For every set of at least three known beacons with positive measured distances, the result is the inverse-distance weighted mean of the beacons that were actually measured, hence inside their convex hull, independent of measurement order and moving along when all beacons are shifted; several measurements of one beacon count as one with the averaged distance, and measurements of unknown beacons are ignored. Computing again, or updating the measurements and computing, gives the same result as a fresh object would, a negative distance or fewer than three usable beacons give an error code and no result, and a copy holds the same result. Beacons and measurements hold what they are given, their copies are independent, beacons are equal exactly when their identifiers are, measurements are ordered by distance, and filtering keeps the measurements of known beacons in order and attaches the beacon.",
 ["inputs", "histories"], "every beacon set, measurement list and sequence of updates and computations",
 "The single existing test computes one fixed example once, so order, duplicates, unknown beacons and re-use are never exercised.",
 ["standalone_algorithms/trilateteration/src/trilateration.cpp", "standalone_algorithms/trilateteration/src/beacon.cpp"],
 [("Trilateration::calculateCoordinates", "standalone_algorithms/trilateteration/src/trilateration.cpp")])

prop("C23", "Standalone positioning pipeline: nearest transmitter over a moving window",
 "For every stream of signals, delivered in time order or late (a signal older than the last result is left out, and time never goes back), the standalone preprocessor gives, once per window shift, the mean strength and distance of the valid signals (supported kind, strength within limits) of every transmitter heard in the averaging window, losing none, limited to the five strongest; the nearest-transmitter estimator returns the location of the strongest transmitter known to the map with the time of the latest signal of known transmitters, or an empty position when there is none; positions never go back in time, and the smoother follows the documented alpha-beta recurrence, restarting after ten seconds. Results do not depend on the order in which signals with equal timestamps arrive before a result.",
 ["histories", "configurations"], "every stream, map and setting",
 NT + "no test of this component exists; windows depend on histories.",
 ["standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp", "standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp", "standalone_algorithms/position_estimation/src/position_smoother.cpp"],
 [("MeasurementsPreprocessor / RadioMeasurementBuffer", "standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp"), ("NearestTransmitterPositionEstimator", "standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp"), ("PositionSmoother", "standalone_algorithms/position_estimation/src/position_smoother.cpp")])

prop("C24", "Altitude trilateration does not depend on the map's frame or reading order",
 "The altitude computed from ranging measurements is the same when the measurements are permuted, when all transmitters are shifted horizontally or rotated about a vertical axis, and when measurements of transmitters of other levels are added; taking the ranges nearest first and leaving out those whose sphere does not reach one already taken, four or more give an altitude and fewer give none. The value is the sum over the ranges used of (transmitter height plus the device's height above it, from the least-squares horizontal position) divided by range, so exact ranges in general position are all used and give the sum for the true position; the client reports the value of the readings of the position's level, and none before a result of the averaging window.",
 ["inputs"], "every transmitter constellation, ranging vector and rigid horizontal motion",
 NT + "frame dependence shows only when comparing related inputs.",
 ["src/trilateration.cpp"],
 [("getIntersectedMeasurements / Trilateration::calculateAltitude", "src/trilateration.cpp")])

prop("C26", "Particle likelihoods agree with the fingerprint position",
 "For every level, fingerprint map, setting, set of readings and set of particles, the likelihood gives one finite non-negative weight per particle: equal weights adding up to one when fewer transmitters known to the level's fingerprints are heard than positioning needs; otherwise weights adding up to one and inversely proportional to 0.1 plus the distance from the position that fingerprint positioning gives for the same readings, or all zero when no reference point is similar to them. The centre offered for sampling new particles is that same position (none without one) and the weight of a single place is taken from the position computed last. Whether an update or a mutation is possible depends exactly on the number of known transmitters heard and its configured minimum (none are known on a level without fingerprints), and a place lies in the intersection area exactly when it is within the measured range of every transmitter.",
 ["inputs", "configurations"], "every map, setting, reading and particle set",
 NT + "no test covers this component; the weights are relations between particles and a position computed from the whole map.",
 ["src/likelihood/likelihood.cpp", "src/likelihood/likelihood_radiomap.cpp"],
 [("LikelihoodRadiomap::calculateWeights / calculateSamplingCenters / getWeight / hasSufficientMeasurementsForUpdate", "src/likelihood/likelihood_radiomap.cpp"), ("isParticleInIntersectionArea", "src/likelihood/likelihood.cpp")])

prop("C27", "Who stays at a surveyed place is reported there",
 "On every map whose levels have transmitters of their own, with averaging and zone or fingerprint positioning under any settings: a user who stays at one place, hearing there steadily the strengths surveyed for a reference point (or any strengths, in zone positioning), is, after a settling time of twice the averaging window and eight windows, reported in every output with status OK, on the level of those transmitters, indoors, and at the place that the positioning method gives for those strengths, rounded to a centimetre - whatever the order of the readings, the number of windows, other sensor messages and the places and levels visited before; while standing this also holds with any smoothing. On a client that hears no radio signal, every accurate enough satellite fix inside a level is reported as it is on that level with its accuracy as radius, and a fix outside all levels gives no position of its own.",
 ["histories", "configurations"], "every map, setting, place and history of places visited before",
 "The unit tests cover single components; none drives the assembled client from readings to a reported place.",
 ["src/navigation_client_impl.cpp", "src/level_estimator/level_history.cpp", "src/measurements/measurement_preprocessor.cpp", "src/position_estimator/position_estimator_knn.cpp", "src/position_postprocessor/position_postprocessor.cpp"],
 [("NavigationClientImpl::navigate", "src/navigation_client_impl.cpp"), ("LevelHistory::detectLevelUsingHistory", "src/level_estimator/level_history.cpp")])

prop("C28", "Names, place on earth and orientation of the map do not matter",
 "For every map, every configuration with a positive averaging time and every time-ordered stream without ties, the client gives the same statuses, levels, providers, places (to 3 cm), radii and headings (a) after renaming levels, transmitters and reference points one-to-one and listing transmitters, reference points and route edges in another order, with altitude left out; (b) after moving the whole map and all satellite fixes to another latitude up to 75 degrees or longitude, altitude included; (c) after turning the map and the fixes by quarter turns or mirroring them, positions turning along (headings left out, triangles off); (d) after adding buildings far away that are never heard, without barometer and positions outside the map.",
 ["inputs", "histories", "configurations"], "every map, setting and stream",
 "A metamorphic relation over whole histories: no single example can settle that a result does not depend on names or on the frame of reference.",
 ["src/navigation_client_impl.cpp", "src/level.cpp", "src/level_collector.cpp", "src/point.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/level_estimator/level_estimator_transmitters.cpp"],
 [("NavigationClientImpl::navigate", "src/navigation_client_impl.cpp"), ("getPointOnLevel / getProcessedPosition", "src/position_postprocessor/position_postprocessor.cpp"), ("gpsToLocal / localToGps", "src/point.cpp")])

prop("C29", "Vectors, rotations, graphs and identifiers obey their algebra",
 "For all operands: vectors add, subtract, scale and multiply (scalar and cross product) component by component up to rounding, the length is the Euclidean one, a normalised vector has length one and the same direction (the null vector stays null), two vectors are equal exactly when no component differs by 1e-8; quaternions multiply as defined by Hamilton with the neutral element, conjugate and norm that belong to it, the product of rotations turns a vector like the rotations one after the other and keeps its length, and the roll, pitch and yaw read off it are the angles it was made of; an operator in place equals the plain one, also applied to the object itself. A graph holds exactly the vertices and edges added, numbers vertices in order, joins each pair at most once, refuses edges to missing vertices unchanged and is copied by value. Identifiers are equal, ordered and hashed by their value alone and valid unless empty. The standalone versions of vectors and quaternions agree.",
 ["inputs", "histories"], "every operand and every sequence of graph operations",
 NT + "algebraic laws over all operands; the tests use these types only in passing.",
 ["src/vector3d.cpp", "src/sensor_fusion/quaternion.cpp", "include/navigine/navigation-core/graph.h", "include/navigine/navigation-core/level_collector.h", "standalone_algorithms/complementary_filter/src/quaternion.cpp", "standalone_algorithms/complementary_filter/src/vector3d.cpp", "standalone_algorithms/pedometer/src/vector3d.cpp"],
 [("Vector3d", "src/vector3d.cpp"), ("Quaternion::operator*= / toEuler / normalized", "src/sensor_fusion/quaternion.cpp"), ("Graph::addVertex / addEdge", "include/navigine/navigation-core/graph.h")])

prop("C30", "Debug states belong to the outputs and repeat what they are made of",
 "For every map, setting and stream in any batches, a client offers exactly one debug state per output of its last batch, none before the first, and the states do not depend on batching, on memory contents or on the run. The step length of a state is the step multiplier times the length of the steps that a pedometer finds for the accelerometer readings at that message, zero without a step, and at a step its counter is the number of steps so far; neither depends on messages of other kinds. Without smoothing, stops and route projection, on a map with one frame, an indoor output is the state's indoor position and a satellite output its satellite position or a fix received, each fitted into the level's box and rounded to a centimetre, and a fused output inside the box lies between the two.",
 ["inputs", "histories", "configurations"], "every map, setting, stream and batching",
 "A relation between two outputs of the assembled client over whole histories; no test reads the states.",
 ["src/navigation_client_impl.cpp", "include/navigine/navigation-core/navigation_state.h", "src/sensor_fusion/sensor_fusion.cpp", "src/position_postprocessor/position_postprocessor.cpp"],
 [("NavigationClientImpl::navigate / getStates", "src/navigation_client_impl.cpp"), ("NavigationState", "include/navigine/navigation-core/navigation_state.h")])

prop("C31", "The client's answer is the composition of its parts, message by message",
 "For every map, setting and stream in batches (messages older than one before them in their batch are dropped), the status, level, position, provider, radius, altitude and orientation of each output are what results when each message goes once, in order, through signal windowing, motion detection, level detection (by fingerprints for KNN or with the radio map, otherwise by transmitters), the satellite estimator (told whether the message before had an indoor position), and then, when a level is known, through the chosen position estimator (KNN for KNN, otherwise zones), fusion and post-processing on the level of the fused position; without a level the satellite position is reported as it is, and with neither the position reported last stays, an error being reported only while there has been none. A silence of the no-signal time, or of the no-action time since both the last signal and the last step, forgets the level and restarts the estimator. The orientation is the measured azimuth while valid, otherwise the direction of travel, clockwise from north or, if asked for, counterclockwise from east, within a turn.",
 ["inputs", "histories", "configurations"], "every map, setting, stream and batching",
 "The wiring of a dozen stateful parts over whole histories; the repository has no test of the assembled client's values.",
 ["src/navigation_client_impl.cpp", "src/navigation_client_impl.h"],
 [("NavigationClientImpl::navigate", "src/navigation_client_impl.cpp"), ("createLevelEstimator / createPostitionEstimator", "src/navigation_client_impl.cpp")])

prop("C32", "Memory stays bounded however long a session lasts",
 "For every map, every setting but stop mode (which averages over everything since the stop), and every stream that repeats with some period, in any batches, the memory a client holds at the end of a period does not grow once every averaging window has filled; the same holds for the pedometers (core and standalone), the sensor fusion and the standalone averaging and positioning pipeline.",
 ["histories", "configurations"], "sessions of any length",
 "A bound over unboundedly long histories: tests stop before a buffer that is never emptied matters.",
 ["src/measurements/measurement_preprocessor.cpp", "src/level_estimator/barometer.cpp", "src/sensor_fusion/pedometer.cpp", "src/navigation_client_impl.cpp", "src/position_postprocessor/polynomial_fit.cpp", "src/position_estimator/position_estimator_outdoor.cpp", "standalone_algorithms/pedometer/src/pedometer.cpp", "standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp"],
 [("NavigationClient::navigate", "src/navigation_client_impl.cpp"), ("RadioMeasurementBuffer::extractMeasurements", "src/measurements/measurement_preprocessor.cpp"), ("Pedometer::calculateSteps", "src/sensor_fusion/pedometer.cpp")])

prop("C33", "What is switched off or not used has no influence",
 "For every map, stream and configuration, two clients that differ only in things no enabled feature uses give the same outputs: settings of features that are switched off or replaced by another (stop mode, sigma filter, graph projection, smoothing and its variants, barriers, strongest-only, zones or fingerprints, satellite fusion, settings of unmapped levels, particle settings), map data only such features use (graph, obstacles, fingerprints, heights), and values of inputs that are not used (signals of unmapped transmitters or unused kinds, pressure without barometer, device azimuth when the azimuth is calculated). Turning sensors, azimuth settings and the choice of north or east change nothing but the orientation; ranges and altitude settings change nothing but the altitude.",
 ["configurations", "inputs"], "every pair of configurations, maps and streams differing only in unused parts",
 "A relation between two runs over the whole configuration space; a test fixes one configuration and never compares.",
 ["src/navigation_client_impl.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/measurements/measurement_preprocessor.cpp", "src/sensor_fusion/sensor_fusion.cpp", "src/level_estimator/level_estimator.cpp", "src/position_estimator/position_estimator_outdoor.cpp", "src/position_estimator/position_estimator_knn.cpp", "include/navigine/navigation-core/navigation_settings.h"],
 [("NavigationClient::navigate", "src/navigation_client_impl.cpp"), ("PositionPostprocessor::getProcessedPosition", "src/position_postprocessor/position_postprocessor.cpp"), ("MeasurementsPreprocessor::getValidSignalEntry", "src/measurements/measurement_preprocessor.cpp"), ("PositionEstimatorOutdoor::calculatePosition", "src/position_estimator/position_estimator_outdoor.cpp")])

prop("C34", "Clients may be used from different threads",
 "Any number of clients with their own settings over one shared map, running at the same time on threads of their own together with threads that only read the map, give exactly the outputs and states they give one after the other, for every schedule, and without an unsynchronised access to shared memory; a client created in one thread may be used and destroyed in others, one at a time. The same holds for the standalone algorithms (pedometer, orientation filter, position pipeline, trilateration), one object per thread.",
 ["schedules", "inputs", "configurations"], "every schedule of the threads, map, setting and stream",
 "No test runs two clients at once; a hidden shared variable shows only under some schedules.",
 ["src/navigation_client_impl.cpp", "src/level_collector.cpp", "src/measurements/measurement_preprocessor.cpp", "src/level_geometry.cpp", "src/position_estimator/position_estimator_knn.cpp", "standalone_algorithms/position_estimation/src/navigation_client.cpp", "standalone_algorithms/trilateration/src/trilateration.cpp"],
 [("NavigationClient::navigate", "src/navigation_client_impl.cpp"), ("LevelCollector", "src/level_collector.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
