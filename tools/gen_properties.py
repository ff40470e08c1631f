#!/usr/bin/env python3
"""Single source of the property texts: writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
NAV = ["navigate() outputs", "getStates()"]
W = "The two stable unit tests cover one static tilt of the standalone orientation filter and three fixed trilateration cases; nothing runs navigate() at all. "

prop("C01", "The answer is a function of map, settings and measurement history only",
 "Two navigation clients built from the same map and settings and fed the same measurements in the same order return identical outputs and states. "
 "That holds however the stream is cut into navigate calls (as long as no call contains a measurement older than one before it), whatever other clients did earlier in the process, and whatever old data the heap and the stack happen to contain.",
 ["histories", "schedules", "configurations", "inputs"],
 "every map, settings object, measurement stream with any delivery faults, every cut of the stream into calls, every content of recycled memory and every earlier history of the process",
 W + "Uninitialised reads, leftovers of an earlier message and per-call resets only show for particular cuts of the stream and particular memory contents.",
 ["src/navigation_client_impl.cpp", "src/measurements/measurement_preprocessor.cpp", "src/sensor_fusion/sensor_fusion.cpp", "src/level_estimator/level_history.cpp"],
 [("all state lives in the client object and is advanced per measurement, not per call", "src/navigation_client_impl.cpp navigate()"),
  ("each sensor sample is handed on only with its own message", "src/measurements/measurement_preprocessor.cpp updateMeasurements()")],
 [("client members", "estimators, preprocessor, postprocessor, last position", "src/navigation_client_impl.h")], NAV)

prop("C02", "Clients that share one map never influence each other",
 "Any number of navigation clients created on one shared map, called from any threads in any interleaving, each return exactly what they would return if they were alone. Creating, running and destroying clients never changes the map they share, and no two of them ever touch the same memory (one of them writing it) without a lock, an atomic or an initialisation guard ordering the two.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the clients' calls, including switches in the middle of a call, and every mix of their settings, streams, creations and destructions",
 W + "No test ever has two clients at once; shared mutable state only shows when the calls interleave.",
 ["src/navigation_client_impl.cpp", "src/level_collector.cpp", "src/level.cpp", "src/knn/knn_utils.cpp", "src/likelihood/likelihood_radiomap.cpp"],
 [("clients only hold the map through const access and copy what they derive from it", "src/*/ constructors taking shared_ptr<LevelCollector>")],
 [("LevelCollector", "the shared map", "include/navigine/navigation-core/level_collector.h")], NAV + ["LevelCollector::levels()"])

prop("C03", "One output and one state per accepted measurement; stale ones leave no trace",
 "A navigate call processes its measurements in order and returns exactly one output and one state for each measurement that is not older than one already processed in the same call. A measurement that is older is skipped and has no effect at all on this or any later result; an empty call returns nothing and leaves the states of the previous call readable.",
 ["histories", "fault_sequences", "inputs"],
 "every batch size and every reordering, duplication and delay of measurements inside a call",
 W + "The guarantee is about arbitrary delivery orders; a test samples none.",
 ["src/navigation_client_impl.cpp"],
 [("running maximum of time stamps per call; outputs and states are appended together", "src/navigation_client_impl.cpp navigate()")], (), NAV)

prop("C04", "Whatever arrives, reported positions are well-formed and nothing crashes",
 "For every stream of measurements, including corrupted values (NaN, infinite, huge, negative), unknown transmitters and jumps of the clock in both directions, navigate returns in bounded time without memory errors. "
 "Each OK output names a level of the map and has finite coordinates, a finite non-negative accuracy radius, an orientation in [-pi, pi) and a provider, and an OK position found while a level is known lies inside that level's bounding box unless GPS outside the map is enabled.",
 ["inputs", "fault_sequences", "configurations", "histories"],
 "every measurement stream with every value corruption and clock fault, under every settings mix",
 W + "Crashes and NaN outputs need particular corrupt values at particular states of smoothers, buffers and filters.",
 ["src/measurements/measurement_preprocessor.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/geometry.cpp", "src/sensor_fusion/complementary_filter.cpp", "src/position_postprocessor/polynomial_fit.cpp"],
 [("non-finite measurements are dropped at the entrance", "src/measurements/measurement_preprocessor.cpp"),
  ("final clamp to the level's box", "src/position_postprocessor/position_postprocessor.cpp getProcessedPosition()"),
  ("angle wrapping", "src/sensor_fusion/quaternion.cpp to_minus_Pi_Pi()")], (), ["navigate() outputs", "sanitizer reports", "watchdog"])

prop("C05", "Silence is reported, old positions are not passed off as current",
 "When no usable radio signal has come for the no-signal time, or for the no-action time while the user also stopped walking, indoor navigation stops; without a valid GPS fix every output is then an error until usable signals return. "
 "An indoor position last computed longer ago than the dead-reckoning time is never reported as OK, and within these limits the last position stays available.",
 ["fault_sequences", "histories", "configurations"],
 "every pattern of radio outages, sensor stalls and message loss, with every setting of the three time limits",
 W + "Needs simulated outages of many lengths at many points of a history; no test contains any.",
 ["src/navigation_client_impl.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/measurements/measurement_preprocessor.cpp"],
 [("no-signal and no-action thresholds", "src/navigation_client_impl.cpp navigate()"),
  ("dead-reckoning limit", "src/position_postprocessor/position_postprocessor.cpp getProcessedPosition()")],
 [("last signal time", "time of the last usable radio measurement", "src/measurements/measurement_preprocessor.h")], NAV)

prop("C06", "Radio signals that are not eligible have no effect",
 "A radio measurement takes part in positioning only if its transmitter is on the map (unless unknown ones are allowed), its type fits the configured signal kinds, tracking mode and measurement type, its strength lies strictly between the cut-off and zero when strengths are used, and it is finite. "
 "Every other measurement has no more effect than the passing of time: no level, position, timeout or average depends on what it contains.",
 ["inputs", "configurations", "fault_sequences"],
 "every mix of eligible and ineligible signals under every combination of the signal settings",
 W + "The filter combines seven settings with six signal and transmitter types; tests exercise none of it.",
 ["src/measurements/measurement_preprocessor.cpp"],
 [("entrance filter", "src/measurements/measurement_preprocessor.cpp isSignalTypeSupported()/isMeasurementValid()")], (), NAV)

prop("C07", "Signals are averaged per transmitter over the configured window",
 "Positioning uses, per transmitter, the average strength (and distance) of the eligible signals inside the averaging window, re-evaluated each time the window has advanced by the configured shift, so that the order and the grouping of the signals inside one window do not matter. "
 "While the user is known to stand still, signals are kept until walking resumes; with the closest-transmitters limit only the strongest ones are used.",
 ["histories", "fault_sequences", "configurations"],
 "every arrival pattern (loss, duplicates, bursts, jitter, reordering inside a window) and every window, shift and limit setting",
 W + "Window boundaries depend on exact arrival times and on the history since the last evaluation.",
 ["src/measurements/measurement_preprocessor.cpp"],
 [("sliding buffer with shift", "src/measurements/measurement_preprocessor.cpp RadioMeasurementBuffer"),
  ("closest transmitters limit", "src/measurements/measurement_preprocessor.cpp extractRadioMeasurements()")],
 [("measurement buffer", "eligible signals not yet dropped", "src/measurements/measurement_preprocessor.h")], NAV)

prop("C08", "The level is the one the signals point to, and it only changes with persistence",
 "In each evaluation the detected level is the one whose transmitters (or reference points) match the received signals best. "
 "The first detection takes effect at once; afterwards the level changes only when another level has been detected five times while the current one did not get re-established in between (once a level is established, each further detection of it cancels the counts of the others), and evaluations without a detection neither count nor change it.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every sequence of detections caused by signals, losses and bursts of interference from other levels",
 W + "Hysteresis is a property of histories; no test crosses a level change.",
 ["src/level_estimator/level_estimator.cpp", "src/level_estimator/level_history.cpp", "src/level_estimator/level_estimator_transmitters.cpp", "src/level_estimator/level_estimator_radiomap.cpp", "src/likelihood/likelihood_radiomap.cpp"],
 [("detection counters", "src/level_estimator/level_history.cpp"), ("per-level score", "src/level_estimator/level_estimator_transmitters.cpp, level_estimator_radiomap.cpp")],
 [("level history", "count per level since the last change", "src/level_estimator/level_history.h")], NAV)

prop("C09", "With barometer use, level changes need a matching change of pressure",
 "When barometer use is enabled and enough pressure samples have been collected, a level change suggested by radio is followed only if the recent mean pressure differs from the stored mean by more than two metres of height; otherwise the previous level is kept; the first level ever detected is taken at once. "
 "Until enough samples are there radio alone decides, and losing or delaying pressure samples never blocks navigation on the current level.",
 ["histories", "fault_sequences", "inputs"],
 "every pressure history with loss, stalls and noise, interleaved with every sequence of radio level detections",
 W + "The gate needs two hundred and more samples before it acts.",
 ["src/level_estimator/barometer.cpp", "src/level_estimator/level_estimator.cpp"],
 [("two sliding pressure windows", "src/level_estimator/barometer.cpp")], [("pressure windows", "new and stored samples", "src/level_estimator/barometer.h")], NAV)

prop("C10", "Zone navigation reports the strongest transmitter of the current level",
 "With the zone algorithm the indoor position is the place of the transmitter with the strongest averaged signal among the transmitters of the current level, with a radius that follows from that strength and the level's signal model. "
 "Signals of transmitters of other levels never move the position, and without signals from the level there is no new position.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every map, every mix of signals from several levels, every loss pattern and signal model",
 W, ["src/position_estimator/position_estimator_zone.cpp", "src/position_estimator/position_estimator.h", "src/level.cpp"],
 [("nearest transmitter by strength", "src/position_estimator/position_estimator_zone.cpp")], (), NAV)

prop("C11", "Fingerprint navigation reports the best-matching reference points",
 "With the fingerprint algorithm the indoor position is the weighted mean of the best-matching reference points of the level (the k best ones, or the corners of the best triangle), where the weights fall with the difference between the measured and the recorded signal strengths and with each transmitter's distance. "
 "With fewer visible transmitters than required, or when no reference point matches, there is no new position.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every radio map, every received signal set and loss pattern, both weighting modes, both selection modes, every k",
 W, ["src/position_estimator/position_estimator_knn.cpp", "src/knn/knn_utils.cpp", "src/triangulation.cpp", "src/radiomap.cpp"],
 [("weights, k best and triangles", "src/knn/knn_utils.cpp"), ("triangulation", "src/triangulation.cpp")], (), NAV)

prop("C12", "Smoothing follows the configured filter and restarts when it must",
 "With smoothing on, the reported track is the configured filter (alpha-beta or least-squares) applied to the raw positions of the current level; positions not newer than the last one do not move it. "
 "The filter restarts from the raw position after a level change and when smoothing would leave the allowed area, the alpha-beta filter also after a gap of ten seconds and when its speed exceeds the limit, so a disturbance never keeps the track away from where the raw positions are.",
 ["histories", "fault_sequences", "configurations"],
 "every raw track with gaps, jumps, duplicates and level changes, with every filter setting",
 W + "A restart depends on gap lengths, speeds and geometry met during a long history.",
 ["src/position_postprocessor/position_smoother_ab.cpp", "src/position_postprocessor/position_smoother_lstsq.cpp", "src/position_postprocessor/polynomial_fit.cpp", "src/position_postprocessor/position_postprocessor.cpp"],
 [("alpha-beta filter", "src/position_postprocessor/position_smoother_ab.cpp"), ("least squares", "src/position_postprocessor/polynomial_fit.cpp")],
 [("filter state", "last position, speed, stored points", "src/position_postprocessor/*.h")], NAV)

prop("C13", "Only valid GPS is used, and the better source is chosen as configured",
 "A GPS fix is used only while it is fresh, accurate enough, supported by enough satellites, not an outlier under the sigma filter and on the map (unless fixes outside the map are allowed). "
 "Indoor and GPS positions are then chosen or blended as configured: preferred source, age and accuracy of both, blending when their accuracy circles meet; the output names the source.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every interleaving of GPS fixes, satellite reports and radio signals with outages, outliers, delays and every setting",
 W + "The choice depends on ages and accuracies of two sources over a history.",
 ["src/position_estimator/position_estimator_outdoor.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/navigation_client_impl.cpp"],
 [("GPS gate", "src/position_estimator/position_estimator_outdoor.cpp"), ("fusion", "src/position_postprocessor/position_postprocessor.cpp fusePositions()")],
 [("last indoor and GPS positions", "with growing uncertainty", "src/position_postprocessor/position_postprocessor.h")], NAV)

prop("C14", "While the user stands still the position is held",
 "With stop detection on, once a user who has walked makes no step for the stop-detection time, the reported position stays where it was (to within rounding) and is updated only after the stop-update time and only when the new position is nearer than the stop distance threshold. "
 "Walking again, or changing the level, releases the hold at once, and a held position is never carried to another level.",
 ["histories", "fault_sequences", "configurations"],
 "every alternation of walking and standing, with lost accelerometer data, level changes and outages in between",
 W, ["src/position_postprocessor/position_postprocessor.cpp", "src/sensor_fusion/pedometer.cpp"],
 [("hold logic", "src/position_postprocessor/position_postprocessor.cpp getProcessedPosition()")],
 [("last step and last output", "", "src/position_postprocessor/position_postprocessor.h")], NAV)

prop("C15", "Reported tracks follow the route graph and are interpolated in time if so configured",
 "With graph projection on, a position closer to the level's graph than the projection distance is reported as the nearest point of the graph; others are not moved by it. "
 "With time smoothing on, the position moves linearly in time from the last but one to the newest computed position on the same level, taking as long as passed between those two and waiting there afterwards, and it never mixes positions of two levels.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every graph, every raw track with delays, gaps, duplicates and level changes",
 W, ["src/position_postprocessor/position_postprocessor.cpp", "src/position_postprocessor/navigation_time_smoother.cpp", "src/level.cpp"],
 [("projection", "src/geometry.cpp"), ("interpolation", "src/position_postprocessor/navigation_time_smoother.cpp")], (), NAV)

prop("C16", "Steps are counted once each, with their length and time",
 "The number of steps reported after each measurement equals the number of steps the reference step detector finds in the accelerometer samples received so far: each step exactly once, with its length, at least 0.3 s apart. "
 "Other measurements, silence, and the way samples are grouped into calls neither add nor lose steps.",
 ["histories", "fault_sequences", "schedules"],
 "every accelerometer history with jitter, gaps, bursts and duplicates, interleaved with every other measurement kind",
 W + "Counting depends on window positions over the whole history.",
 ["src/sensor_fusion/pedometer.cpp", "src/sensor_fusion/sensor_fusion.cpp"],
 [("peak detection on filtered magnitude", "src/sensor_fusion/pedometer.cpp")], [("magnitude windows, step counter", "", "src/sensor_fusion/pedometer.h")], NAV)

prop("C17", "The reported orientation comes from the configured and fresh source",
 "The reported orientation is the device's own azimuth while that is fresh and due east otherwise or, when so configured, the azimuth computed from accelerometer, gyroscope and magnetometer (north until the first magnetometer sample); it is in [-pi, pi), and the east-north convention is applied if configured. "
 "Each sensor sample is integrated exactly once, with the time since the previous sample of its kind.",
 ["histories", "fault_sequences", "configurations", "schedules"],
 "every interleaving of orientation, gyroscope, accelerometer, magnetometer and radio messages with stalls, loss and duplicates",
 W + "The only filter test is a static tilt of the standalone copy.",
 ["src/sensor_fusion/complementary_filter.cpp", "src/sensor_fusion/sensor_fusion.cpp", "src/sensor_fusion/quaternion.cpp", "src/navigation_client_impl.cpp"],
 [("complementary filter", "src/sensor_fusion/complementary_filter.cpp"), ("source choice", "src/sensor_fusion/sensor_fusion.cpp")], [("orientation quaternion", "", "src/sensor_fusion/complementary_filter.h")], NAV)

prop("C18", "After any disturbance navigation recovers in bounded time",
 "After a burst of faults (corrupted values, foreign signals, outliers, duplicates, stalls, outages, delayed and skipped messages, a clock set wrong by up to twenty seconds and set right again, failed calls) ends and clean measurements flow again, the client reports OK on the right level within a bounded time, and from then on within a small tolerance the same positions as a client that never saw the faults.",
 ["fault_sequences", "histories", "configurations"],
 "every burst of faults of bounded length, at every point of a run, under every settings mix without unbounded memory",
 W + "Lasting damage shows only some time after a fault that no test injects.",
 ["src/navigation_client_impl.cpp", "src/level_estimator/level_history.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/position_postprocessor/position_smoother_ab.cpp", "src/position_postprocessor/position_smoother_lstsq.cpp", "src/measurements/measurement_preprocessor.cpp"],
 [("windows, filter restarts and timeouts", "see C05, C07, C08, C12")], (), NAV)

prop("C19", "Running out of memory in a call is reported and survived",
 "When an allocation fails inside navigate or while a client is created, the failure is reported to the caller as an allocation error (or the call completes), without crash, leak or memory error, and other clients of the same map are not affected at all. "
 "The client stays usable: later calls work, keep all output guarantees, and once enough new measurements have come its positions are again those of a client that saw no failure.",
 ["fault_sequences", "crash_points", "histories"],
 "every allocation of every call as the failing one, single and repeated failures",
 W + "No test fails an allocation.",
 ["src/navigation_client_impl.cpp", "src/measurements/measurement_preprocessor.cpp", "src/knn/knn_utils.cpp", "src/sensor_fusion/pedometer.cpp"],
 [("RAII containers everywhere", "src/")], (), ["navigate() outputs", "sanitizer reports"])

prop("C20", "A map level is added completely or not at all",
 "Adding a level to a map makes it findable by its name, by its position in insertion order and through each of its transmitters, with all its content converted to the level's local coordinates and its walls where its outline puts them. "
 "If adding fails at any point because memory runs out, the map is exactly as before, remains usable, and adding the level again succeeds with the same result as if nothing had failed.",
 ["crash_points", "fault_sequences", "programs"],
 "every sequence of additions with the failure at every allocation",
 W, ["src/level_collector.cpp", "src/level.cpp", "src/level_geometry.cpp", "src/barriers_geometry_builder.cpp"],
 [("build first, publish last", "src/level_collector.cpp addGeoLevel()")], [("levels and index", "", "include/navigine/navigation-core/level_collector.h")], ["LevelCollector::levels()", "findLevelByTransmitterId()"])

prop("C21", "Logs, settings and maps load completely or degrade record by record",
 "Loading a measurement log, a settings document or a map file yields exactly the records it contains, in order and unchanged, however the storage delivers the bytes (short and interrupted reads). "
 "In a log, a torn or corrupted record is dropped without affecting the other records; a setting that is malformed leaves its default and the others as written. A malformed map is reported by an error code or exception and never loaded in part, an unreadable file is reported or yields nothing, and no content makes a loader crash.",
 ["fault_sequences", "crash_points", "inputs"],
 "every log, settings and map content, every pattern of short reads, interrupts and read errors, every truncation point and flipped byte",
 W + "No test reads a damaged file.",
 ["tools/verification/helpers.cpp", "tools/verification/helpers.h"],
 [("per-line and per-key error handling", "tools/verification/helpers.cpp")], (), ["GetNavMessages()", "CreateSettingsFromJson()", "ParseGeojson()"])

prop("C22", "The standalone step counter counts each step once, however samples arrive",
 "The standalone step counter reports exactly the steps, step lengths and step times of the reference detector for the accelerometer samples received so far. "
 "The same holds for every cut of the samples into updates, every distribution of step calculations among the updates, and every pattern of jitter, loss, bursts, duplicates and corrupted values.",
 ["histories", "fault_sequences", "schedules"],
 "every accelerometer history and every division into update calls",
 "The pedometer's tests need data files and are not among the stable ones; they replay a handful of recorded walks in one fixed batching.",
 ["standalone_algorithms/pedometer/src/pedometer.cpp", "standalone_algorithms/pedometer/include/pedometer.h"],
 [("peak detection on filtered magnitude", "standalone_algorithms/pedometer/src/pedometer.cpp")], [("magnitude windows", "", "standalone_algorithms/pedometer/include/pedometer.h")], ["calculateSteps()"])

prop("C23", "The standalone orientation filter integrates each sample once, at its own time",
 "The standalone orientation filter's attitude and azimuth follow the documented complementary filter for the samples received so far, with each gyroscope sample integrated over the time since the previous one and accelerometer and magnetometer corrections weighted by their gains. "
 "The attitude stays a unit rotation with finite angles, and after the disturbance of a burst of bad samples ends it converges back to the attitude the accelerometer shows.",
 ["histories", "fault_sequences", "configurations"],
 "every interleaving of the three sensors with stalls, loss, duplicates and bursts, and every gain setting",
 "The only stable test is one static tilt.",
 ["standalone_algorithms/complementary_filter/src/complementary_filter.cpp", "standalone_algorithms/complementary_filter/src/quaternion.cpp"],
 [("complementary filter", "standalone_algorithms/complementary_filter/src/complementary_filter.cpp")], [("attitude quaternion", "", "standalone_algorithms/complementary_filter/include/complementary_filter.h")], ["getFusedAzimuth() and the other getters"])

prop("C24", "The standalone position estimator tracks the strongest known transmitter",
 "The standalone position estimator averages eligible signals per transmitter over its window, places the user at the strongest known transmitter with the newest time stamp of the used signals and smooths the track; unknown transmitters and ineligible signals never influence it. "
 "Time stamps of reported positions never run backwards within one client, and after gaps the track restarts from the raw position.",
 ["histories", "fault_sequences", "configurations"],
 "every stream with loss, jitter, duplicates, reordering inside a packet, foreign transmitters and outages, and every packet division",
 "Its tests need data files and are not among the stable ones.",
 ["standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp", "standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp", "standalone_algorithms/position_estimation/src/position_smoother.cpp"],
 [("window, nearest transmitter, smoother", "standalone_algorithms/position_estimation/src")], (), ["calculatePosition()"])

prop("C25", "Standalone trilateration depends on the current measurements only",
 "Each trilateration result is computed from the beacons and measurements of the current round alone: repeated measurements of a beacon are averaged, unknown beacons ignored, and the position is the mean of the beacon places weighted by inverse distance. "
 "Fewer than three heard beacons, negative or non-finite distances and rounds without any known beacon are reported by their error codes, and no earlier round, successful or failed, changes a later result.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of rounds on one object with loss, duplicates, reordering, corrupt distances and unknown beacons",
 "The stable test runs three single rounds on fresh objects.",
 ["standalone_algorithms/trilateteration/src/trilateration.cpp", "standalone_algorithms/trilateteration/src/beacon.cpp"],
 [("per-round reset and weighted mean", "standalone_algorithms/trilateteration/src/trilateration.cpp")], [("accumulated coordinates", "", "standalone_algorithms/trilateteration/src/trilateration.h")], ["calculateCoordinates()", "getXY()"])

prop("C26", "Altitude is computed from the current distances only and disturbs nothing else",
 "With altitude turned on, the altitude of an output is computed from the averaged distances of the current evaluation to the transmitters of the reported level, without those whose distances contradict a nearer transmitter; with fewer than four left, or between evaluations, it is zero. "
 "It is always finite, and turning altitude on or off changes no other part of any output.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every map, every signal history with loss, noise, foreign signals and contradicting distances, under every settings mix",
 W, ["src/trilateration.cpp", "src/navigation_client_impl.cpp", "src/measurements/measurement_preprocessor.cpp"],
 [("least squares of distance differences after a consistency test", "src/trilateration.cpp calculateAltitude()")], (), ["navigate() outputs: posAltitude"])

prop("C27", "However long a session lasts, the memory held and the work of a call stay bounded",
 "What a navigation client (or a standalone step counter, attitude filter, position estimator or trilateration object) holds in memory, and the work one more call costs, is bounded by its settings, its map and the rate of its input, never by how long the session has lasted, how many strangers were heard, how many calculations failed or how often a client was restarted.",
 ["histories", "fault_sequences", "configurations"],
 "every session of any length, with loss, bursts, outages, pauses, restarts, corrupted input and transmitters that change their addresses",
 "A unit test lasts a few calls; growth shows only over histories of hours and only in the combination of settings and input that fills one buffer.", ["src/measurements/measurement_preprocessor.cpp", "src/level_estimator/barometer.cpp", "src/position_postprocessor/position_postprocessor.cpp", "src/sensor_fusion/pedometer.cpp", "src/navigation_client_impl.cpp", "standalone_algorithms/trilateteration/src/trilateration.cpp", "standalone_algorithms/pedometer/src/pedometer.cpp", "standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp"],
 [("windows pruned by age or count", "RadioMeasurementBuffer, Barometer, Pedometer, PositionPostprocessor, PositionSmootherLstsq")], (), ["live heap bytes (simulated allocator)", "basic blocks executed per round"])

prop("N01", "Geographic and local coordinates convert back and forth without loss",
 "Converting a point from geographic to local level coordinates and back returns the same point up to rounding, for every binding point away from the poles.",
 ["inputs"], "all points and binding points", "Tests cannot sample all points.",
 ["src/point.cpp"], [("spherical scale factors", "src/point.cpp")])
prop("N02", "Triangulation of reference points is a Delaunay triangulation",
 "For every set of points in general position the triangles have empty circumscribed circles.",
 ["inputs"], "all point sets", "Tests cannot sample all point sets.", ["src/triangulation.cpp"], [("incremental insertion", "src/triangulation.cpp")])
prop("N03", "Quaternion and vector algebra obeys its laws",
 "Products, conjugation, rotation and normalisation obey the algebraic identities for all finite operands.",
 ["inputs"], "all operands", "Tests cannot sample all operands.", ["src/sensor_fusion/quaternion.cpp", "src/vector3d.cpp"], [("operators", "src/sensor_fusion/quaternion.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
