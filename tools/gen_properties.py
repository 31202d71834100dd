"""Writes properties.jsonl (one place to edit the texts)."""
import json
from pathlib import Path

B = "cratermaker/core/base.py"
S = "cratermaker/core/simulation.py"
CR = "cratermaker/components/crater/__init__.py"
PD = "cratermaker/components/production/__init__.py"
PN = "cratermaker/components/production/neukum.py"
PP = "cratermaker/components/production/powerlaw.py"
PJ = "cratermaker/components/projectile/__init__.py"
SC = "cratermaker/components/scaling/__init__.py"
SM = "cratermaker/components/scaling/montecarlo.py"
SU = "cratermaker/components/surface/__init__.py"
SH = "cratermaker/components/surface/hireslocal.py"
SI = "cratermaker/components/surface/icosphere.py"
SA = "cratermaker/components/surface/arbitrary_resolution.py"
MO = "cratermaker/components/morphology/__init__.py"
MB = "cratermaker/components/morphology/basicmoon.py"
MR = "cratermaker/components/morphology/realisticmoon.py"
CO = "cratermaker/components/counting/__init__.py"
CD = "cratermaker/components/counting/depthcount.py"
TA = "cratermaker/components/target/__init__.py"
GU = "cratermaker/utils/general_utils.py"
MC = "cratermaker/utils/montecarlo_utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        }
    )


prop("C01", "Equal seeds or states give identical results; generator precedence is honoured",
     "Two simulations or components built with the same inputs and the same random seed (or the same saved generator state, or generators in the same state) produce identical craters, surfaces and random draws for the same sequence of operations. When several are given, an explicit generator wins over a state and a state wins over a seed, all components of one simulation share a single stream, and no result depends on global random state, on the working directory or on other simulations in the process.",
     ["histories", "inputs", "configurations"], "every operation sequence up to the bound, every combination of generator, state and seed",
     "The tests use a couple of fixed seeds and never compare two histories or combine seed, state and generator.",
     [B, S, MC], [("_rng_init precedence", B), ("common_args propagation", S), ("rng arguments of the samplers", MC)])
prop("C02", "A run follows its requested timeline exactly",
     "Running over a time span divided into intervals saves the initial state plus one state per interval, numbered consecutively; the saved current time goes from the start to the end of the span without gaps or overlap, ends exactly at the requested end, the elapsed time equals the distance covered, and the elapsed crater density is the production between start and current time. Every crater formed in an interval is dated inside it. Contradictory or impossible run arguments are rejected before anything changes.",
     ["inputs", "histories"], "every combination of span, interval specification (including ones that do not divide the span) and continuation up to the bound",
     "Tests run one or two spans that divide evenly and check few of the recorded variables.",
     [S, PD], [("run loop", S), ("_validate_run_args", S), ("time_variables", S)])
prop("C03", "A resumed simulation continues where it stopped",
     "Opening an existing simulation directory without asking for a reset restores the saved surface, the observed and emplaced craters, the interval counter, the clocks, the components with their settings and the random stream as of the last completed save. Continuing the run from there yields the same intervals, times and craters as if it had never been interrupted, and keeps recording its progress so that it can be resumed again.",
     ["histories"], "every run history up to the bound, interrupted after every save",
     "Tests check one resume of a simulation that has not been advanced.",
     [S, B, SU, CO], [("config file restore", S), ("rng_state", B), ("surface reload", SU), ("crater reload", CO)])
prop("C04", "A crash while saving never destroys the previously saved results",
     "If the process dies or a write fails at any point of a save (as part of a run, of creating or of opening a simulation, or by itself) or of an export, every saved data file that was complete before is still readable with its old or its new content, and a new simulation object can be opened in the directory and continued to the same end. No reader ever accepts a half-written file as a valid result, and a failing write is never passed over in silence.",
     ["crash_points", "fault_sequences"], "every file operation of a save as crash or failure point",
     "No test interrupts a save.", [B, S, SU, CO], [("save", SU), ("save", CO), ("config write", S)])
prop("C05", "Existing files are never removed or overwritten without consent",
     "While overwrite prompts are enabled, a file that exists is deleted or overwritten by reset or export only after the user agreed to it, a refusal leaves every file exactly as it was, and an 'all' answer applies to that operation only. With prompts disabled the user is never asked, and the prompt setting itself is unchanged afterwards.",
     ["inputs", "histories"], "every sequence of answers to every prompt, for each operation and set of pre-existing files",
     "Tests run with prompts disabled or feed one answer.",
     [B, S, SU, CO], [("overwrite check", B), ("reset", S), ("export", S)])
prop("C06", "Reset removes exactly the own outputs and restores the initial state",
     "Resetting a simulation or component removes all of its saved outputs and nothing else: files it did not write, in its directories or elsewhere, survive. Afterwards clocks, interval counter, crater lists and surface are those of a fresh start, so that a simulation that was reset behaves like a new one.",
     ["histories"], "every operation sequence up to the bound followed by a reset, with foreign files in every directory",
     "Tests reset once and look at one or two values.",
     [B, S, SU, CO], [("reset", B), ("saved_output_files", B), ("reset", SU), ("reset", CO)])
prop("C07", "Locations always denote the same point on the sphere, in canonical range",
     "Normalising a location returns longitude in [-180, 180) and latitude in [-90, 90] denoting the same point of the sphere, however far out of range the input was, and normalising again changes nothing. Any accepted way to write one or many locations (pair, list, array, structured array) is understood identically, and anything else is rejected.",
     ["inputs"], "every location on a lattice far past all wrap-around points, in every accepted representation",
     "Tests check a handful of coordinates.", [GU], [("normalize_coords", GU), ("validate_and_normalize_location", GU)])
prop("C08", "Random draws respect their limits and follow their distribution law",
     "Sampled impact angles, directions, locations, velocities, sizes and bounded normal values stay within their limits for every possible underlying random number and follow the documented law (sin squared incidence, uniform azimuth, uniform on the sphere, Maxwellian with gravitational focusing, power-law interpolated size distribution, truncated normal). A random location requested on a face lies inside that face.",
     ["inputs"], "every quantile of every underlying draw on a lattice, including the end points, for every parameter combination",
     "Tests draw a few thousand random values from one seed, which cannot reach the corners or tell a slightly wrong law.",
     [MC], [("get_random_*", MC), ("bounded_norm", MC), ("get_random_location_on_face", MC)])
prop("C09", "Production functions are monotone, additive in time, and invertible",
     "The cumulative production between two times is never negative, decreases with crater diameter, increases with the length of the span, and is additive over adjacent spans. Converting a time to a number density and back, in either order and through any reference diameter, returns the value started from, and the crater or projectile variants agree with their published coefficients' shape at every diameter.",
     ["inputs", "configurations"], "every model, version and diameter x time lattice point",
     "Tests evaluate a few ages and diameters for the default version.",
     [PD, PN, PP], [("function", PN), ("chronology", PN), ("age_from_D_N", PD), ("csfd", PN)])
prop("C10", "Sampled populations match the production function and the request",
     "Sampling a production function over a span, area and diameter range yields only diameters inside the range and times inside the span, one time per crater, sorted from old to young; the expected number equals the production at the smallest diameter over the span times the area, sizes follow the cumulative production and times its rate. Requests given as time, number density or crater number are equivalent, and contradictory requests are rejected.",
     ["inputs", "configurations"], "every request shape and every answer of the random generator up to the deviation bound",
     "Tests compare one random sample to within Poisson noise.",
     [PD], [("sample", PD), ("_validate_sample_args", PD)])
prop("C11", "Prescribed craters appear exactly once, at times meeting their constraints",
     "Every crater prescribed by time, number density or sequence gets a formation time drawn from its stated value and uncertainty (exactly the stated value when no uncertainty is given), never in the future, and the times respect the stated sequence order. Merging over consecutive spans emplaces every prescribed crater whose time falls in them exactly once, keeps the result sorted from old to young, and replaces random craters instead of adding to the largest ones.",
     ["inputs", "histories"], "every small set of prescribed craters with every mix of constraints and every partition of the timeline",
     "Tests merge one example file.",
     [PD, S], [("quasimc_craters", PD), ("quasimc_merge", PD)])
prop("C12", "A crater is fully and consistently determined by the size given",
     "However its size is given (final, transient or projectile, as diameter, radius, mass or axes), a crater's diameters, radii, axes, mass, velocity components and densities agree with one another and with the value given, over- or under-specified sizes are rejected, and equal inputs give equal identifiers while different craters get different ones. Fixed attributes cannot be changed afterwards; measured attributes start equal to the fixed ones, can be changed, and never alter them.",
     ["inputs", "histories"], "every combination of size arguments and copy operations on small menus",
     "Tests construct a few craters.", [CR], [("Crater.maker", CR), ("fixed and variable parts", CR)])
prop("C13", "Size scaling is monotone, consistent and invertible",
     "Scaling from projectile to transient to final crater and back returns the starting size for every target, material and regime, is monotone within a morphology type, and the morphology type reported agrees with the size. With random variation switched off the same input always gives the same answer, and with it on results stay within the documented limits.",
     ["inputs", "configurations"], "every target, material, projectile and size-lattice combination, every answer of the random generator up to the deviation bound",
     "Tests check a few sizes on the Moon.", [SC, SM], [("projectile_to_transient and inverse", SM), ("transient_to_final and inverse", SM)])
prop("C14", "Target bodies are self-consistent and isolated from one another",
     "For every catalogue or user-defined body the radius, diameter, mass, density, gravity and escape velocity satisfy the physical relations between them, whichever ones were given and after every change; invalid values are rejected. Creating or changing one body never changes another body or the catalogue.",
     ["inputs", "histories"], "every body, every subset of given quantities and every short sequence of changes",
     "Tests look at a few bodies and never at interactions.", [TA], [("Target.maker", TA), ("derived properties", TA)])
prop("C15", "Projectiles honour what is specified and derive the rest consistently",
     "A projectile keeps every quantity the user specified, fills the others from its population and target, and its velocity, vertical velocity and angle always agree. Copies and new projectiles made from it keep the specified quantities, leave the original untouched, and invalid values are rejected.",
     ["inputs", "histories"], "every population, target and subset of given quantities, followed by copies and changes",
     "Tests check default values only.", [PJ], [("Projectile.maker", PJ), ("new_projectile", PJ)])
prop("C16", "Meshes tile the sphere and regions select exactly the right faces",
     "The faces of every mesh cover the target's surface once: areas are positive and add up to the area of the sphere, every face size, bin and neighbour relation is consistent, and the face or node found for a location is the one whose position is nearest to it. A region of given centre and radius contains exactly the faces whose centres lie within it and the ring of faces that share a node with those, with distances and bearings from its centre that agree with spherical geometry, also across the date line and the poles and for regions of regions.",
     ["inputs", "configurations"], "every mesh type at small sizes, and every region centre/radius on a lattice that includes poles and date line",
     "Tests use a few regions on one mesh.", [SU, SI, SA, SH], [("extract_region", SU), ("face_bins", SU), ("find_nearest", SU)])
prop("C17", "Local changes touch exactly the selected faces and nodes",
     "Adding to, overwriting or reading elevation or any face or node variable through a region changes exactly the selected elements of the surface and leaves the rest, other variables and the selection's geometry bit for bit as they were. Additions accumulate, overwrites replace, a value of the wrong size is rejected with nothing changed.",
     ["histories", "inputs"], "every short sequence of edits through every selection form",
     "Tests do one edit and look at the whole.", [SU], [("update_elevation", SU), ("add_data", SU), ("LocalSurface", SU)])
prop("C18", "Crater tags on the surface are exact",
     "Tagging faces with a crater identifier makes exactly those faces carry it until it is removed, adding and removing others never disturbs it, and the count of tagged faces always matches. Only when a face of the region already carries as many identifiers as it has layers is one given up, with a warning. Overlapping craters in any order of tagging and removal keep exactly their own faces.",
     ["histories"], "every sequence of tag and untag operations up to the bound on overlapping regions",
     "Tests tag one or two craters.", [SU, CO], [("add_tag", SU), ("remove_tag", SU)])
prop("C19", "Surfaces survive saving and loading, and grids are reused only when they match",
     "A saved surface state loads back equal in every variable and its time values, for every interval, and saving one interval never alters another. An existing grid file is reused only if it was generated with the same parameters; any difference in parameters leads to a new grid.",
     ["histories", "configurations"], "every short history of edits, saves and loads, and every pair of grid parameter sets",
     "Tests save and load once.", [SU, B, SI, SA], [("save", SU), ("grid reuse", SU), ("read_saved_output", B)])
prop("C20", "Emplacing a list equals emplacing its craters one at a time, in order",
     "Emplacing any list of craters forms each of them exactly once, in the order of the list, with the same surface and records as forming them one at a time, however non-overlapping ones are batched and in whatever accepted form they are handed over; a simulated population is formed oldest first. Craters the surface cannot resolve change nothing, craters made for another simulation change only the surface they are emplaced on, no stretch of time is degraded twice, and a failure on one crater leaves no queued ones behind for a later call.",
     ["histories", "inputs", "fault_sequences"], "every small crater list with every overlap pattern, form of input and failure point",
     "Tests emplace a few lists in one order and never fail half-way.", [MO, MB, S], [("emplace", MO), ("queue", MO), ("emplace", MB), ("populate order", S)])
prop("C21", "Crater formation moves mass but does not create it",
     "The volume excavated by each crater is exactly that of its rim and ejecta, on any terrain and with any morphology setting. Elevations and ejecta beyond the reach of the ejecta stay untouched, on level ground the crater is its profile plus the ejecta profile scaled to the excavated volume, a function of distance (and bearing, with rays) alone, and it is the same crater wherever it forms. Diffusion and slope collapse preserve the volume, never increase the relief or create new extremes, and change nothing outside of their region; degradation over a stretch of time is the sum over its parts.",
     ["inputs", "configurations", "histories"], "every crater size, location, terrain and morphology setting of a menu on several meshes, every symmetry of the mesh, every partition of a time span",
     "Tests look at one crater.", [MB, MO, SU], [("form_crater", MO), ("form_ejecta", MO), ("apply_diffusion", SU), ("slope_collapse", SU), ("compute_subpixel_degradation", MB)])
prop("C22", "Crater counts reflect exactly what is on the surface",
     "Every emplaced crater large enough is recorded once as emplaced and once as observable, with exactly its own faces tagged; a crater stops being counted only when it has been erased, and then permanently. Counting never changes the surface elevation, and the recorded numbers match the lists and the tags.",
     ["histories"], "every sequence of emplacing, overprinting, tallying and removing up to the bound",
     "Tests count once.", [CO, CD], [("add", CO), ("tally", CO), ("remove", CO)])
prop("C23", "Crater lists survive every file format they are written to",
     "Craters written to a data set, table, crater-count or vector file and read back have the same identifiers, sizes, locations, times, names and measured values to the precision of the format, for any mixture of craters in any order. An empty list round-trips to an empty list, and writing never changes the craters.",
     ["inputs", "histories"], "every small list of craters from a menu with every optional attribute present or absent, in every format",
     "Tests round-trip one homogeneous list.", [CO, CR], [("to_csv/from_csv", CR), ("to_xarray/from_xarray", CR), ("export", CO)])
prop("C24", "Settings written to the configuration rebuild the same simulation",
     "Every setting a user can give, directly or through a component, is written to the configuration file and, when read back, yields components of the same kind with equal settings; explicit arguments take precedence over the file and the file over defaults. Writing the configuration never changes the simulation, and a configuration written, read and written again is the same.",
     ["configurations", "histories"], "every setting and pair of settings on small menus",
     "Tests read back one default configuration.", [S, B, GU], [("to_config", S), ("_set_properties", GU), ("Parameter", GU)])
prop("C25", "Components are selected by name, class or instance, and wired consistently",
     "Every registered component can be made by its name, its class or an instance (which is used as is), an unknown name or a wrong type is rejected, and defaults depend on the target as documented. All components of a simulation refer to the same target, surface, projectile, production, counting and generator objects, and building one component never affects another simulation.",
     ["configurations"], "every registered component, target and selection form, and every pair of them",
     "Tests build the default combination.", [B, S, MO, SC], [("maker", B), ("register", B), ("Simulation wiring", S)])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
