"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})
T = "pvtrace/algorithm/photon_tracer.py"; K = "pvtrace/engine/_kernel.pyx"; CO = "pvtrace/material/component.py"
MA = "pvtrace/material/material.py"; SU = "pvtrace/material/surface.py"; UT = "pvtrace/material/utils.py"
RA = "pvtrace/light/ray.py"; CP = "pvtrace/engine/compiler.py"; API = "pvtrace/engine/api.py"; TA = "pvtrace/engine/tally.py"
RE = "pvtrace/engine/recorder.py"; EM = "pvtrace/engine/emit.py"; LI = "pvtrace/light/light.py"; NO = "pvtrace/scene/node.py"
SC = "pvtrace/scene/scene.py"; TR = "pvtrace/geometry/transformable.py"; DB = "pvtrace/cli/db.py"; MN = "pvtrace/cli/main.py"
PR = "pvtrace/cli/parse.py"; ST = "pvtrace/studio/server.py"; LS = "pvtrace/device/lsc.py"; DI = "pvtrace/material/distribution.py"

p("P01", "Ray histories obey the event lifecycle",
  "Every ray history begins with GENERATE; every ABSORB is followed immediately by exactly one outcome, which is either EMIT or SCATTER (tracing goes on) or NONRADIATIVE or REACT (the history ends); EXIT and KILL also end the history and no event ever follows an ending event. EMIT is produced only by luminophores, SCATTER only by plain scatterers, REACT only by reactors, NONRADIATIVE by every other loss, and absorbers and reactors never re-emit. This holds for the Python tracer and for the compiled engine's event log.",
  ["inputs", "histories"], "every scene, ray, random stream and event limit, on every path through one tracing step",
  "Tests look at a few histories of a few scenes; the claim is about every path through a tracing step and every component class.",
  [T, K, CO], [("step_forward yields (ray, event, metadata)", T), ("trace_one records events", K), ("is_radiative overrides", CO)], ["step_forward", "EngineResult.histories"])
p("P02", "Tracing a ray always stops at its step limit",
  "Every tracing step counts exactly once against the caller's step limit, the first step beyond the limit ends the history with a KILL, and no path through a step skips or undoes that. The Python tracer likewise ends a ray with a KILL once it has travelled farther than the caller's maximum path length, and the limits given to the public entry points reach the tracing loop unchanged.",
  ["inputs", "histories"], "every scene, ray and limit; every path that returns to the top of the tracing loop",
  "Tests use scenes that end quickly; whether any path can loop without being counted is a statement about all paths.",
  [T, K, API], [("count > maxsteps check at the loop head", T), ("count > maxsteps check at the loop head", K), ("simulate passes maxsteps", API)])
p("P03", "Path length and elapsed time are accounted exactly",
  "Whenever a ray moves, its position changes by its direction times the distance moved, its travelled distance grows by that distance, and its elapsed time grows by that distance times the refractive index of the medium that contains it divided by the speed of light in cm/s. Elapsed time otherwise changes only by exponentially distributed delays, -ln(1-u) times the radiative lifetime at re-emission and -ln(1-u) times the non-radiative lifetime at loss, each drawn only when that lifetime is set; travelled distance never changes otherwise. This holds for the Python tracer and the compiled engine.",
  ["inputs", "histories"], "every event of every history in any scene",
  "Tests compare a few totals in simple scenes with a single index; the increments must be right at every kind of event in every medium.",
  [RA, T, CO, K], [("Ray.propagate", RA), ("step_forward", T), ("Scatterer.nonradiative_absorb, Luminophore.emit", CO), ("trace_one", K)])
p("P04", "Absorption follows Beer-Lambert in the containing medium",
  "The distance to absorption is sampled as -ln(1-u)/alpha, where alpha is the sum of the attenuation coefficients, at the ray's wavelength, of all components of the medium that contains the ray and u is a fresh uniform number; the ray is absorbed exactly when that distance is less than the distance to the next surface, and never in a medium whose alpha is (close to) zero. The absorbing component is one of the containing medium's components, chosen with probability proportional to its coefficient at the ray's wavelength. This holds for the Python tracer and the compiled engine.",
  ["inputs"], "every medium, component list, wavelength and random number",
  "Statistical tests on one or two materials cannot tell a wrong sum, wrong medium or wrong branch in other configurations.",
  [MA, T, K], [("total_attenutation_coefficient, penetration_depth, is_absorbed, component", MA), ("volume absorption section", K)])
p("P05", "Surfaces reflect, refract and transmit by the Fresnel equations",
  "At a Fresnel surface the reflection probability is the mean of the s and p Fresnel reflectances for the angle between the ray and the surface normal turned along the ray, with n1 the index of the containing medium and n2 that of the adjacent one, and is 1 beyond the critical angle; reflection is specular and refraction obeys Snell's law in vector form with those indices. A null surface never reflects and never changes direction. This holds for the Python tracer and the compiled engine.",
  ["inputs"], "every incidence direction, surface normal orientation and pair of refractive indices",
  "Tests evaluate the formulas at a few angles and check the tracer only in aggregate.",
  [UT, SU, K], [("fresnel_reflectivity, specular_reflection, fresnel_refraction", UT), ("FresnelSurfaceDelegate, NullSurfaceDelegate", SU), ("fresnel_reflectivity, specular_reflect, fresnel_refract and surface section of trace_one", K)])
p("P06", "Re-emitted wavelengths follow the selected emission method",
  "A luminophore re-emits at the wavelength whose cumulative emission probability is uniform between p1 and 1, where p1 is 0 for 'full', the cumulative probability at the absorbed wavelength for 'redshift', and that at the wavelength of the absorbed photon energy (1240/nm eV) raised by 3/2 kT at 300 K for 'kT'. Scattering never changes the wavelength, and the method chosen by the caller is the one applied. This holds for the Python tracer and the compiled engine.",
  ["inputs", "configurations"], "every emission spectrum, absorbed wavelength, emission method and random number",
  "Tests sample one spectrum and mostly one method.",
  [CO, DI, K, CP, API], [("Luminophore.emit", CO), ("emission block of trace_one", K), ("EMIT_METHODS", CP)])
p("P07", "Quantities cross coordinate frames correctly",
  "Positions are converted between node frames with the full homogeneous transform and directions and normals with its rotation only, in the direction of the conversion asked for. The tracers convert what they pass to geometry, surface and component code from world frame into the frame of the node that owns it, and convert the result back from that same node's frame: the hit node for surfaces, the containing node for re-emission.",
  ["inputs", "configurations"], "every arrangement of nested, rotated and translated nodes",
  "Tests mostly use unrotated nodes, where frame mistakes are invisible.",
  [NO, RA, T, K], [("transformation_to, point_to_node, vector_to_node", NO), ("Ray.representation", RA), ("frame conversions in step_forward", T), ("transform_point/transform_vector calls in trace_one", K)])
p("P08", "The medium on each side of a surface is identified correctly",
  "The next surface is the nearest one strictly ahead of the ray; the medium containing the ray is the node with exactly one surface crossing ahead, the nearest such node if several; and the adjacent medium is the hit node when the ray comes from outside it, otherwise the node of the second nearest crossing. A ray whose nearest surface belongs to the world node exits there. This holds for the Python tracer and the compiled engine.",
  ["inputs", "configurations"], "every arrangement of nested nodes and every ray",
  "Tests cover a few nestings.",
  [T, K], [("next_hit, find_container", T), ("next_hit section of trace_one", K)])
p("P09", "Tracing never alters a ray in place or changes unrelated fields",
  "Rays are immutable values: each step yields a new ray and no code assigns to a ray's fields or bypasses the immutability. Moving a ray leaves direction, wavelength and source unchanged; reflecting or transmitting changes only direction; a non-radiative loss changes only elapsed time; scattering changes only direction and source; re-emission changes only direction, wavelength, source and elapsed time; changing frame changes only position and direction.",
  ["inputs", "histories"], "every ray and every operation on it",
  "Tests check the field that should change, rarely the ones that should not.",
  [RA, CO, SU, T], [("frozen dataclass Ray; dataclasses.replace", RA), ("replace calls", CO), ("replace calls", SU)])
p("P10", "The engine's numeric codes mean the same on both sides",
  "Every numeric code exchanged between the Python side and the compiled kernel - event kinds, geometry, surface, component, phase-function and emission-method tags, recorder events, recorder properties and size limits - has the same meaning on both sides, with no two members of one family sharing a code. A scene object of some kind is always lowered to that kind's own code.",
  ["programs", "configurations"], "every code of every family and every supported scene object",
  "Tests exercise some codes with results that would not all differ if two were confused.",
  [K, CP, RE, "pvtrace/light/event.py"], [("EV_*, GEOM_*, SURF_*, COMP_*, PHASE_*, EMIT_*, REC_* constants", K), ("tag tables", CP), ("EVENTS, PROPERTIES", RE), ("Event", "pvtrace/light/event.py")])
p("P11", "Scenes the engine cannot represent are rejected, never approximated",
  "Compiling a scene for the engine succeeds only if everything in it is in the supported set (box, sphere and cylinder geometry with a material, rigid transforms, plain Fresnel or null surfaces, the four component classes, isotropic, Henyey-Greenstein or cone phase functions, interpolated spectra, at most the kernel's node and recorder capacity, unique recorder names, facet filters only on surface events). Anything else raises the unsupported-scene error before any ray is traced, and nothing on the way swallows it.",
  ["inputs", "configurations"], "every scene",
  "Tests try a few unsupported features; the claim is that every feature without a native implementation is refused.",
  [CP, API], [("CompiledScene.__init__ and its _compile_* helpers", CP), ("simulate", API)])
p("P12", "Compiled scene tables carry each scene value into its own column",
  "Each per-node, per-component, per-spectrum, per-recorder and per-histogram value of a scene ends up in the table and column from which the kernel reads that quantity, for the right row: node and component order, start/count ranges, spectrum and histogram offsets and transforms in both directions are consistent between compiler and kernel. Table element types and row strides agree between writer and reader.",
  ["inputs", "programs"], "every scene; every table and column",
  "A swapped or misaligned column shows only in scenes where the two values differ.",
  [CP, K], [("CompiledScene tables", CP), ("SceneT pointer set-up in trace_bundle and its uses", K)])
p("P13", "The kernel never reads or writes outside its tables",
  "Every write the kernel makes to a fixed-size array or output table is within its bounds for every scene the compiler accepts and every bundle: hit lists, per-node and per-recorder work arrays, event rows, per-thread accumulators and histogram bins. Buffers handed to native code have the element type it assumes and outlive the call.",
  ["inputs", "configurations"], "every scene within the accepted limits, every thread count, event limit and recording interval",
  "Out-of-bounds writes corrupt memory silently and depend on scene size and thread count; tests use small scenes.",
  [K, CP], [("MAX_NODES, MAX_HITS, MAX_RECORDERS guards; record; tally; accumulator sizing; prange num_threads", K)])
p("P14", "A ray's engine result does not depend on threads or neighbours",
  "The compiled engine gives ray i of a bundle a random stream that depends only on the seed and i, traces it from its own copies of position and direction, and writes results only to that ray's rows and to accumulators owned by the executing thread, which are merged by summation. The outcome for a given seed is therefore the same for any number of threads and any scheduling, and caller-supplied ray arrays are not modified.",
  ["schedules", "configurations"], "every thread count and interleaving",
  "A data race or thread-dependent seed needs particular schedules to show.",
  [K, API], [("prange loop in trace_bundle; rng_seed per ray; accumulator slices per tid", K)])
p("P15", "Recorders tally the documented interactions",
  "A recorder counts transmission into its node (entering), transmission out of it (escaping), reflection off its outside (reflected), non-radiative loss, reaction or kill inside it, or exit through it, and only when the outward normal matches its facet within tolerance where one is given. Every matching interaction adds one crossing, while ray count, moments (sum and sum of squares of wavelength, angle, duration and path length) and histograms take only a ray's first matching interaction, and a value is binned only if it lies in the half-open histogram range. The compiled engine and the Python reference tally agree on all of this.",
  ["inputs", "histories"], "every recorder, history and property value",
  "Tests compare totals on a few scenes; selector, facet and bin-edge mistakes need particular events and values.",
  [TA, RE, K], [("_matches, tally_histories, _TallyState, _bin_index", TA), ("tally, prop_value and its call sites in trace_one", K)])
p("P16", "What is logged never changes what is traced or tallied",
  "Recording event histories is observation only: random numbers, ray movement, recorder tallies and the end of tracing do not depend on the recording interval, on whether a ray is logged or on the event limit. A logged ray that outgrows its event budget ends its log with a KILL, and recorders still tally the rest of its path.",
  ["inputs", "configurations"], "every recording interval, event limit and scene",
  "Tests use default recording; coupling appears only for rays that exhaust the budget or are not logged.",
  [K], [("record; base < 0 for unlogged rays; event budget section of trace_one", K)])
p("P17", "Engine results are decoded without mixing up rays, fields or names",
  "Event k of recorded ray j is read from the row where the kernel wrote it, every field of a decoded ray and its metadata comes from the log column of that name, numeric ids are turned into the names of the nodes and components they denote, and a ray's source is its light's name until a component re-emits it. Recorder results pair each recorder with its own counters, moments and histogram slice, and means and standard deviations divide by the number of rays.",
  ["inputs", "configurations"], "every result, recording interval and recorder",
  "Tests read a few fields of a few results, mostly with every ray recorded.",
  [API, K], [("EngineResult, RecorderResult", API), ("dict returned by trace_bundle", K)])
p("P18", "Streaming traces every ray once, with its own seed",
  "Streaming simulation splits the requested number of rays into bundles that add up to exactly that number, gives the first ray of each bundle the base seed plus the number of rays already traced, passes every other option through unchanged, and reports the running total after each bundle.",
  ["inputs", "configurations"], "every ray count, bundle size, seed and option",
  "Tests use one bundle size and default options.",
  [API], [("simulate_stream", API)])
p("P19", "Bundled emission draws from the same lights as scene emission",
  "Emitting a bundle gives ray i to the same light, in the same rotation, as emitting rays one by one, and samples wavelength, position and direction from the same distribution that light's delegate describes, transformed into the world frame with the light's node. Every delegate without a vectorised equivalent falls back to calling it per ray, and a scene without lights is an error rather than a bundle of null rays.",
  ["inputs", "configurations"], "every set of lights and delegates",
  "Tests compare few delegates, mostly for one light in an unrotated node.",
  [EM, LI, UT, SC], [("emit_bundle, _sample_*", EM), ("delegates", LI), ("phase functions", UT), ("Scene.emit", SC)])
p("P20", "Parallel workers trace exactly the requested rays, independently",
  "Whatever the number of workers, the rays given to the workers add up to exactly the requested number, each worker process is seeded with its own random seed before it emits, a fixed seed is refused when several workers would share it, and every worker's results or error reach the caller.",
  ["inputs", "configurations", "schedules"], "every ray count, worker count and seed",
  "Tests use few worker counts that mostly divide the ray count.",
  [SC], [("Scene.simulate, do_simulation, do_simulation_add_to_queue", SC)])
p("P21", "Lights emit the requested rays from their own node's frame",
  "Asking a light for n rays yields exactly n, each built from that light's own wavelength, position and direction delegates and labelled with its name. A scene asked for n rays yields exactly n, cycling through its lights in turn and converting each ray from the light's node to the world frame.",
  ["inputs", "configurations"], "every ray count and set of lights",
  "Tests use one or two lights and few counts.",
  [LI, NO, SC], [("Light.emit", LI), ("Node.emit", NO), ("Scene.emit", SC)])
p("P22", "A node's pose, location and rotation stay consistent",
  "Setting a location replaces only the translation part of a node's pose, translating adds to it and rotating composes a rotation about the node's own origin with the existing pose, so that location always reads back the translation part and earlier rotations are kept. Pointing a node along a vector turns its +z axis to that vector's direction whatever the vector's length.",
  ["histories", "inputs"], "every sequence of location, translate, rotate and look-at operations",
  "Tests apply one or two operations to a fresh node.",
  [TR, NO], [("Transformable.location, translate, rotate, pose", TR), ("Node.look_at", NO)])
p("P23", "Scene queries see every node and return crossings ahead in order",
  "Intersecting a scene asks every node that has a geometry, each in its own frame, reports each crossing with the node it belongs to and its distance from the ray origin, discards crossings behind the origin, and returns the rest in world coordinates ordered by distance.",
  ["inputs", "configurations"], "every scene graph and ray",
  "Tests cover a few shallow graphs.",
  [SC, NO, "pvtrace/geometry/intersection.py"], [("Scene.intersections", SC), ("Node.intersections", NO), ("Intersection.to", "pvtrace/geometry/intersection.py")])
p("P24", "Database rows store each value in its declared column",
  "Every ray and event written to the simulation database puts each value in the column the schema declares for it - throw, position, direction, wavelength, source, distance, time; ray reference, kind, component, hit, container, adjacent, facet, normal - with as many placeholders as columns, and every event row refers to the ray row written for it. Each event is committed with its ray.",
  ["inputs", "histories"], "every event of every simulation",
  "Tests check counts of rows rather than each column.",
  [MN, "pvtrace/data/schema.sql"], [("write_ray, write_event, monitor_queue", MN), ("table definitions", "pvtrace/data/schema.sql")])
p("P25", "Database queries select exactly the interaction they name",
  "Each count, spectrum and time query selects the event kind it is named after - reflected: REFLECT, entering and escaping: TRANSMIT, lost: NONRADIATIVE, reacted: REACT, killed: KILL - at the named node, from outside for reflected and entering and from inside for escaping, and applies every filter the caller gives (normal components within tolerance, facet, source) and no other. Each query counts or lists distinct throws and reads the quantity it is named after.",
  ["inputs", "configurations"], "every query function and combination of filters",
  "Tests run few queries with few filters on one small database.",
  [DB], [("_boundary_query, _volume_query, _normal_clauses and the sql_* builders", DB)])
p("P26", "User-supplied text never becomes part of a query",
  "Every value that comes from the user or from simulation data - node names, facet and source labels, normals, tolerances, ray and event fields - reaches the database only as a bound parameter, in the order of its placeholder; the text of every statement is built only from constants of the program.",
  ["inputs"], "every user-supplied string",
  "Injection needs adversarial names that tests do not use.",
  [DB, MN, "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py"], [("(sql, params) builders and cur.execute calls", DB)])
p("P27", "Command-line options reach the query or simulation they describe",
  "Each command passes every option it accepts to the query or simulation option of the same meaning and runs the query it is named after - count, spectrum and time for reflected, entering, escaping, lost, reacted and killed - and prints results of that query only.",
  ["inputs", "configurations"], "every command and option",
  "Tests invoke few commands with few options; a dropped or swapped option goes unseen.",
  ["pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", MN], [("typer commands", "pvtrace/cli/count.py"), ("simulate command", MN)])
p("P28", "No simulated event is lost between workers and the database",
  "The database writer stops only after it has been told to stop and the queue is empty, it is told to stop only after all workers have finished and on every way the simulation can end, and everything it takes from the queue is written. Rays of different workers never share a throw identifier, and restricting the output to end rays drops only events that are not generation, loss, reaction, kill, exit, entering, escaping or outside reflection.",
  ["schedules", "histories"], "every interleaving of workers and writer; every worker count",
  "Losing the tail of the queue or merging throws needs particular timing or process reuse.",
  [MN, SC], [("monitor_queue, simulate", MN), ("do_simulation_add_to_queue, is_end_ray", SC)])
p("P29", "An existing database is never overwritten without consent",
  "The simulate command removes or replaces an existing result database only when the user passed the overwrite option or confirmed the prompt; declining the prompt aborts before anything is deleted, created or simulated. The file removed and recreated is the one belonging to the given scene file, and the scene is parsed successfully first.",
  ["inputs", "histories"], "every combination of existing file, option and answer",
  "Tests do not answer the prompt.",
  [MN], [("simulate command", MN)])
p("P30", "Scene files are validated before anything is built from them",
  "A scene file is read with a loader that cannot construct arbitrary objects, validated against the published schema, and rejected for unknown versions, before any part of it is used to build the scene. References to undefined components, nodes and recorder targets are errors, never silently ignored.",
  ["inputs"], "every scene file, including malicious and malformed ones",
  "Tests parse valid files and a few invalid ones.",
  [PR, "pvtrace/cli/pvtrace-schema-scene-spec.json"], [("load_spec, parse, parse_v_1_0, parse_recorders", PR)])
p("P31", "Every scene-file setting reaches the object it describes",
  "Each setting a scene file may give - geometry sizes, refractive index, components, coefficient, spectrum, quantum yield, phase function and its parameters, histogram flag, light wavelength, position and direction masks, node parent, location and direction, and recorder node, event, facet, tolerance and histograms - is passed to the corresponding argument of the object built for it, including zero and other falsy values. When a coefficient and a spectrum are both given, the spectrum is scaled so that its peak equals the coefficient.",
  ["inputs", "configurations"], "every valid scene file",
  "Tests parse a few files and check few attributes; a dropped or crossed setting goes unseen.",
  [PR], [("parse_* functions", PR)])
p("P32", "A rejected studio edit leaves document and scene untouched",
  "In pvtrace studio a new document or structured edit takes effect only after it has been validated, parsed and compiled: if any of these fails the previous document, scene and specification remain exactly as they were and the client gets an error. After an accepted edit document, specification and scene all come from the same text, and computing an edit never alters the stored document by itself.",
  ["inputs", "fault_sequences"], "every edit, at every point where validation, parsing or compilation can fail",
  "Tests try one or two invalid edits; atomicity is about every failing point.",
  [ST], [("Studio.apply", ST), ("put_document, patch_document, _patch", ST)])
p("P33", "Studio requests can only write the opened scene's files",
  "A studio request writes to disk only the opened document itself or a .csv/.txt file directly in the document's folder: path components in an uploaded name are discarded before use, other extensions are refused, and without an opened document nothing is written. Temporary files made while parsing are always removed.",
  ["inputs"], "every request payload",
  "Path traversal needs adversarial names; clean-up matters only on failure paths.",
  [ST], [("upload_file, save_document, Studio.apply", ST)])
p("P34", "Studio live results add up every bundle of one scene",
  "A studio run traces the scene that was current when it started with the client's ray count, bundle size, seed and recording interval, adds every recorder quantity of every bundle exactly once to running totals, and reports those totals with histogram slices and means that belong to each recorder. Edits during a run do not change what the run traces or how it labels its results. A stop request ends the run going on, and a new run starts only after the one before it has ended.",
  ["histories", "schedules"], "every sequence of bundles and concurrent edits",
  "There is no test of a run with several bundles or edits in between.",
  [ST], [("websocket run", ST), ("_recorder_payload, _histogram_meta, _extract_paths", ST)])
p("P35", "The LSC device builds and counts what was configured",
  "The luminescent solar concentrator builds its scene from the given size, indices, wavelength range, lights and components, treats facets consistently (left/right = -x/+x, near/far = -y/+y, bottom/top = -z/+z) in its cells, mirrors and result labels, lets every ray through faces that carry a solar cell without deflection and reflects every ray at mirrors, and counts lost rays as those whose last event is a loss. Repeated simulations add to the results.",
  ["configurations", "histories"], "every configuration of cells, mirrors, lights and components, and every sequence of simulations",
  "The repository has no test of the device.",
  [LS], [("LSC, OptionalMirrorAndSolarCell, AirGapMirror", LS)])
p("P36", "Spectra reject bad data and out-of-range queries",
  "A spectrum accepts only strictly ascending positions and finite, non-negative values; evaluating it or its cumulative distribution outside its range, or sampling with a probability outside [0, 1], raises an error instead of extrapolating. Its cumulative distribution starts at 0 and ends at 1, and sampling and lookup use the same cumulative table in opposite directions.",
  ["inputs"], "every data set and query",
  "Tests cover some invalid inputs.",
  [DI], [("Distribution", DI)])
p("P37", "Phase functions and masks sample the distribution they are named after",
  "Isotropic, Henyey-Greenstein, cone and Lambertian samplers map uniform random numbers to the polar angle of their distribution (cos = 2u-1; the Henyey-Greenstein inverse with g, isotropic at g = 0; sin = sqrt(u) sin(max); sin = sqrt(u)) with a uniform azimuth, and return the unit vector of those angles. Rectangular, circular and cubic masks sample uniformly within the given half-widths or radius, in the plane z = 0 for the first two; the compiled engine's samplers are the same functions.",
  ["inputs"], "every parameter value and random number",
  "Tests check norms and a few moments.",
  [UT, LI, K], [("isotropic, henyey_greenstein, cone, lambertian, spherical_to_cart", UT), ("rectangular_mask, circular_mask, cube_mask", LI), ("sample_phase", K)])
p("P38", "Primitive shapes report their true surfaces and outward normals",
  "For spheres and cylinders the crossings reported for a ray are exactly the solutions, ahead of the origin, of the ray equation with the sphere, or with the cylinder's side within its length and its caps within its radius, and for the engine's boxes with the six faces; the surface normal is the outward unit normal of the face or curved surface at the point. Python and engine use the same equations.",
  ["inputs"], "every shape size and ray",
  "Tests use few rays and sizes.",
  ["pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/utils.py", "pvtrace/geometry/box.py", K],
  [("Sphere.intersections/normal", "pvtrace/geometry/sphere.py"), ("Cylinder, ray_z_cylinder", "pvtrace/geometry/utils.py"), ("intersect_*, local_normal", K)])
p("P39", "Engine and Python tracer give statistically equal results",
  "For every scene the engine supports, the joint distribution of ray histories produced by the compiled engine equals that of the Python tracer.",
  ["inputs", "configurations"], "every supported scene",
  "Statistical tests compare a few observables in a few scenes.",
  [K, T], [("trace_one", K), ("step_forward", T)])
p("P40", "Floating-point error never misplaces a ray",
  "Accumulated floating-point error never makes a ray skip a surface, count a surface twice or change medium, for any scene dimensions and any number of interactions.",
  ["inputs", "histories"], "every scene scale and history length",
  "Tests use scenes of ordinary size.",
  [T, K, "pvtrace/geometry/utils.py"], [("EPS_ZERO comparisons", "pvtrace/geometry/utils.py")])
p("P41", "The random generator's streams are uniform and independent",
  "The compiled engine's per-ray random streams are uniform on [0, 1) and statistically independent between rays and seeds.",
  ["inputs"], "every seed and ray index",
  "Independence of streams is a statistical property of all seeds.",
  [K], [("splitmix64 and xoshiro256+ streams", K)])
RE = "pvtrace/scene/renderer.py"
p("P42", "The viewer draws shapes and ray paths where the scene has them",
  "Rendering a scene adds one object for every node with a geometry except the world, with that geometry's shape and size and the node's pose in the world's frame (a cylinder's axis, which the viewer draws along y, turned to z). A ray path or history is drawn as one segment per step, from each position to the next, in the colour of the wavelength that travels it; only the segment that leaves the world is cut to the requested length, or left out on request. Every drawn segment or exit bauble has an identifier of its own, and once more than the maximum number of histories has been drawn all objects of the oldest are removed. A wavelength outside the visible range is black and colours stay within 0 to 255 per channel.",
  ["inputs", "histories"], "every scene, history and option",
  "The tests never draw: the viewer needs a server.",
  [RE, "pvtrace/light/utils.py"], [("MeshcatRenderer.render, add_geometry, add_ray_path, add_history", RE), ("wavelength_to_rgb, rgb_to_hex_int", "pvtrace/light/utils.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        fp.write(json.dumps(r) + "\n")
print(len(P))
