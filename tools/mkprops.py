#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B, T, M, H = "mypaint-brush.c", "mypaint-tiled-surface.c", "brushmodes.c", "helpers.c"

prop("P01", "No API history corrupts memory, runs undefined behaviour, leaks or aborts",
 "For every history of public API calls within the documented preconditions (any brush settings and dynamics, any finite motion events, direct dabs, colour sampling, symmetry changes, transactions with any rectangle capacity), the library makes no out-of-bounds, use-after-free or uninitialised access, executes no undefined integer/shift/alignment operation, and does not abort. When every object has been released, no memory remains allocated.",
 ["inputs", "histories"], "all brush configurations x event sequences x surfaces x symmetry states x interleavings of dabs, sampling and transactions",
 "Unit tests paint a handful of shipped brushes with one recorded stroke and run without sanitizers; index arithmetic in the tile map, run-length mask, symmetry bounding boxes and smudge buckets depends on values they never take.",
 [B, T, M, "operationqueue.c", "tilemap.c", "fifo.c", "mypaint-symmetry.c", "mypaint-mapping.c"],
 [("tile map resize and indexing", "tilemap.c"), ("dab mask run-length encoding", T), ("bounding box slots for symmetry dabs", T), ("radius and offset clamps", B)],
 ["sanitizer reports and process exit status while random API histories run"])

prop("P02", "Loading a brush is total: any string is accepted or rejected, never fatal",
 "Passing any string (malformed, truncated, hostile or well-formed) to the brush loader returns a boolean without crashing, aborting, hanging or leaking. After any load, accepted or rejected, the brush remains fully usable: settings can be read, strokes can be painted and a valid brush can still be loaded.",
 ["inputs", "histories"], "all byte strings, and sequences of loads on one brush followed by painting",
 "The test suite loads only well-formed shipped brushes; malformed structure, oversized or one-point curves, non-numeric or unordered points and wrong JSON types are never tried.",
 [B, "mypaint-mapping.c"], [("json type checks in brush loading", B), ("curve point validation", "mypaint-mapping.c")],
 ["return value of the loader", "sanitizer reports", "strokes painted after each load"])

prop("P03", "Loading, defaults and metadata are faithful",
 "After loading a version-3 brush, every setting it mentions has exactly the base value and curve points given (to float precision), every setting and curve it does not mention is unchanged, unknown settings are ignored, and the load reports success exactly when at least one setting was applied. Resetting to defaults gives every setting its published default with no curves except opacity-multiply following pressure from (0,0) to (1,1); settings, inputs and states have unique names that map back to their own ids, with ordered minimum, default and maximum.",
 ["inputs", "histories"], "all generated brush documents, sequences of loads, and all settings and inputs",
 "Tests compare one or two loaded values; loss, swap or truncation for a particular setting, input or point index needs generated documents over the whole id space.",
 [B, "mypaint-brush-settings.c", "brushsettings.json", "generate.py", "mypaint-mapping.c"],
 [("json to mapping transfer", B), ("generated settings tables", "generate.py")],
 ["getters for base values and curve points after a load", "settings and inputs info"])

prop("P04", "A setting's value is its base value plus the sum of its input curves",
 "For every curve configuration and input vector, a setting evaluates to its base value plus, for each input with a curve, the piecewise-linear function through that curve's points, extended linearly with the first and last segments' slopes outside its range; flat steps and equal x coordinates stay finite. Inputs without points contribute nothing, and 'constant' and the number of used inputs always agree with the curves currently set, through any sequence of edits.",
 ["inputs", "histories"], "all curves of 0 or 2..64 points, all input vectors, all edit sequences",
 "Tests evaluate a few fixed curves; segment selection, extrapolation and the used-inputs bookkeeping can be wrong only for particular point counts, orders or edit histories.",
 ["mypaint-mapping.c", B], [("segment search and interpolation", "mypaint-mapping.c"), ("inputs_used bookkeeping", "mypaint-mapping.c")],
 ["mypaint_mapping_calculate results against an independent evaluator", "dab parameters emitted by a brush using the curves"])

prop("P05", "Every pixel changed in a transaction lies in the rectangles reported for it",
 "For every transaction (dabs, colour sampling and symmetry in any order), each pixel whose value differs between the start and the end of the transaction lies inside one of the rectangles returned when it ends, for any capacity of the caller's rectangle array. No more rectangles than that capacity are written or reported, the rectangles never include areas belonging only to earlier transactions, and a transaction that changes nothing may report nothing.",
 ["inputs", "histories", "configurations"], "all dab sequences, symmetry modes, rectangle capacities and consecutive transactions",
 "Tests check a few fixed symmetry/rectangle arrangements; coverage must hold for every dab geometry, merge pattern and history of earlier transactions.",
 [T, "mypaint-rectangle.c", "mypaint-symmetry.c"],
 [("dirty box per dab", T), ("merging boxes into the caller's array", T), ("box reset at transaction start", T)],
 ["rectangles returned by end_atomic against a full pixel diff of the tile store"],
 [("bounding boxes", "areas touched in the current transaction", T)])

prop("P06", "Pixels stay valid: colour never exceeds alpha, alpha never exceeds one",
 "Starting from valid premultiplied pixels (each colour channel at most alpha, alpha at most 2^15), any sequence of dabs in any blend mode with any parameters leaves every pixel valid. A newly created surface holds only valid pixels, and out-of-range colour, opacity or mode arguments act as if clamped to their documented range.",
 ["inputs", "histories"], "all dab parameter tuples, pixel values and dab sequences",
 "Tests never look at the pixel invariant; 15-bit fixed-point rounding and overflow need particular combinations of pixel, mask, colour and mode, compounded over many dabs.",
 [M, T, "mypaint-fixed-tiled-surface.c"], [("fixed-point blending", M), ("argument clamps", T)],
 ["every pixel of every tile after each dab"])

prop("P07", "Blend modes compute the colours they are documented to",
 "Per pixel, with effective opacity o (mask x opacity): normal painting is source-over, an erasing dab interpolates towards the target alpha, lock-alpha and colourise change colour but never alpha, colourise takes the brush's hue/saturation with the pixel's luminosity, posterise rounds each stored channel to the level count without exceeding alpha, and spectral (paint) mode with opacity 1 or on transparent pixels yields exactly the brush colour and otherwise a weighted geometric mix; results match these formulas within rounding. Opacity 0 never changes a pixel, and combined modes share the opacity according to their weights.",
 ["inputs"], "all pixel values x brush colours x opacities x mode weights x levels",
 "Tests contain no numerical check of any blend mode.", [M, H, T],
 [("blend functions", M), ("spectral reflectance mixing", H), ("mode weights", T)],
 ["tile contents before and after single dabs, against a double precision reference"])

prop("P08", "A dab marks exactly its disc or ellipse, independent of tile grid and position",
 "A dab changes no pixel farther than its radius plus one from its centre, and its opacity at a pixel follows the documented hardness/softness profile of the (aspect-scaled, rotated) normalised distance, monotonically fading outwards. Moving a dab by whole pixels moves its result by exactly those pixels, across tile borders and into negative coordinates, with every affected tile rendered; dabs below the minimum radius, with zero opacity, zero hardness or full softness change nothing and say so.",
 ["inputs"], "all centres, radii, hardness, softness, aspect ratios and angles",
 "Tests only time or save dabs at a few positions; tile-border and negative-coordinate errors need systematic placement.", [T],
 [("mask rendering", T), ("tile range computation", T)],
 ["pixels and tile requests of single dabs on an instrumented tile store"])

prop("P09", "Queued rendering equals immediate rendering, each dab once per tile in order",
 "Painting a sequence of dabs in one transaction, in many transactions, or interleaved with colour sampling at any point gives bit-identical pixels: queued dabs are applied to each tile exactly once and in the order issued, and sampling sees all dabs issued before it. Tiles are requested and released in matched pairs with correct coordinates, at most once per tile per flush, and no queued dab survives the end of its transaction.",
 ["histories", "schedules"], "all dab/sampling/transaction interleavings and tile footprints",
 "Tests use one transaction per stroke with no comparison to an unbatched rendering; queue resizing and de-duplication paths depend on footprint history.",
 ["operationqueue.c", "tilemap.c", "fifo.c", T], [("per-tile FIFO and dirty list", "operationqueue.c"), ("tile map growth", "tilemap.c")],
 ["tile contents and tile request log for the same dabs under different batchings"])

prop("P10", "Parallel tile processing is race-free and gives the sequential result",
 "With a surface that declares thread-safe tile requests, ending a transaction or sampling a colour on any number of threads under any schedule has no data race, never hands the same tile to two workers at once, and leaves pixels and reported rectangles bit-identical to single-threaded processing. Colours sampled in parallel agree with the sequential ones up to summation rounding.",
 ["schedules", "inputs"], "all thread counts, schedules and dab sets",
 "The default build has no OpenMP at all, and the tests never compare schedules.", [T, "operationqueue.c", H, M],
 [("parallel tile loop", T), ("critical section around colour accumulation", T)],
 ["race detector reports, tile request event log and pixels under an instrumented parallel runtime with injected delays"])

prop("P11", "Symmetry paints exactly the mirrored and rotated copies of each dab",
 "With symmetry active, each dab produces the dab itself plus exactly its images under the chosen symmetry (1 for a vertical or horizontal axis, 3 for both, n-1 rotations, or n-1 rotations plus n reflections), about the given centre and angle, with dab angles transformed likewise; inactive symmetry produces only the dab. Changes of type, centre, angle or line count take effect at the start of the next transaction and never inside one.",
 ["inputs", "histories"], "all symmetry types, centres, angles, line counts, dabs and change points",
 "Tests compare a few symmetric strokes at fixed parameters; images depend on centre, angle, line count and when the state is changed.",
 ["mypaint-symmetry.c", "mypaint-matrix.c", T], [("symmetry matrices", "mypaint-symmetry.c"), ("pending/current symmetry state", "mypaint-symmetry.c")],
 ["pixels painted with symmetry versus the same dabs issued one by one at independently computed images"])

prop("P12", "Painting is a deterministic function of the calls made",
 "Two runs making the same calls from creation on identical surfaces produce identical dabs, pixels and return values, whatever the prior contents of memory, other brushes in use, or the number of previous strokes by other instances. After a brush is given the saved states, settings and buckets of another at an event boundary, it continues as the other does, apart from random inputs.",
 ["histories", "configurations"], "all call histories, memory contents and save points",
 "Tests run once with whatever the allocator returns; uninitialised or shared state shows only when memory contents or neighbours differ.",
 [B, H, "rng-double.c", T], [("state and settings initialisation", B), ("per-brush random generator", "rng-double.c")],
 ["dab logs and pixels compared across processes with different memory fill patterns and neighbouring activity"])

prop("P13", "Dab spacing follows the settings, not how events are split",
 "Along a stroke with constant parameters, dabs are spaced so that distance times (dabs-per-actual-radius/radius + dabs-per-basic-radius/base-radius) plus time times dabs-per-second advances by one per dab, with the unfinished fraction carried over to the next event. Splitting a straight motion into more events at proportional times leaves the dab positions and count unchanged up to rounding, and position, pressure, tilt and rotation are interpolated linearly between events with angles taking the shorter way round.",
 ["inputs", "histories"], "all event subdivisions, speeds, spacings, ratios and radii",
 "Tests count dabs for one recorded event list.", [B], [("dab counting", B), ("partial dab carry-over", B), ("linear interpolation of events", B)],
 ["dabs emitted to a recording surface, and brush states at each dab"])

prop("P14", "Every dab handed to the surface has sane parameters",
 "For every brush configuration within the published setting ranges and every sequence of motion events, including non-finite, huge or negative values, each dab passed to the surface has finite position and parameters, a radius greater than 0 and bounded, opacity, hardness and softness in [0,1], and lies within the bounded offset from the brush position. Non-finite or extreme coordinates never paint at an extreme location.",
 ["inputs", "histories"], "all brushes with settings in range, all event values including hostile ones",
 "Tests feed recorded tablet data only.", [B], [("radius clamp", B), ("offset clamp", B), ("insane input guard", B), ("opacity, hardness and softness clamps", B)],
 ["dabs emitted to a recording surface"])

prop("P15", "Every motion event is processed in bounded work",
 "For every brush configuration within the published setting ranges and every motion event, processing the event terminates after emitting a number of dabs bounded by the distance and time it covers times the dab density, and stroke processing never stalls. A motion that covers no distance in negligible time emits at most one dab.",
 ["inputs", "histories"], "all brushes, positions up to the accepted coordinate range, and events",
 "A stuck loop needs particular combinations of position magnitude, radius and density, which no test tries.", [B],
 [("dab loop", B), ("dab counting", B)], ["number of dabs per event against the bound, with a logical step limit"])

prop("P16", "Colour sampling reports the canvas colour and never changes the canvas",
 "Sampling any area of uniform colour returns that colour and alpha for every radius, position and sampling mode; any sample is in [0,1] with alpha between the smallest and largest alpha sampled, and legacy-mode samples, and all samples of radius up to two, are the opacity-weighted average of the area under the soft sampling disc. A fully transparent area gives alpha 0, and sampling leaves all pixels unchanged apart from applying dabs already queued.",
 ["inputs", "configurations"], "all radii, positions, sampling modes and canvas contents",
 "Tests sample nowhere numerically; large radii use randomised, interval-based sampling whose parameters depend on the radius.", [T, M],
 [("weighted accumulation", M), ("sampling interval and rate", T)], ["get_color results against canvas contents on an instrumented store"])

prop("P17", "Dab colours follow the brush colour and the HSV/HSL change settings",
 "The colour of an unsmudged dab is the RGB equivalent of the brush's HSV base colour, altered by the hue, saturation, value and lightness change settings as documented, with hue wrapping and other components clamped to [0,1]; with all change settings zero the colour is exact. In linear mode the adjustment is made on the gamma-encoded colour and transformed back, so zero change settings leave colours identical in both modes.",
 ["inputs"], "all base colours, change settings and both transfer modes",
 "Tests do not check colour values; sector boundaries, hue wrap and grey axes are corner inputs.", [H, B],
 [("hsv/hsl/rgb conversions", H), ("colour dynamics", B)], ["colours of dabs emitted to a recording surface, against an independent double precision conversion"])

prop("P18", "Stroke splitting and painting time are accounted correctly",
 "The result of each motion event says whether to split the stroke: true for the event that performs a reset, after more than about four seconds plus three times pressure of painting when pressure is not falling, after more than one second of idling with nothing painted, or when painting plus idling exceeds 0.9 seconds plus five times pressure while idle; false otherwise. The total painting time is the sum of the durations of the painting events since the stroke began, and a new stroke resets it to zero.",
 ["histories"], "all sequences of painting, idle, reset and new-stroke events with any durations and pressures",
 "The tests ignore the return value over time; the accounting is a state machine over histories.", [B],
 [("stroke separation logic", B)], ["return values and painting time of every event against a state machine fed with observed dabs"])

prop("P19", "Brush states and smudge buckets are isolated, persistent and reset on request",
 "A state or smudge bucket that is written reads back exactly and no other state or bucket changes; bucket access fails, changing nothing, exactly when the index is outside the brush's capacity. A requested reset leaves states untouched until the next motion event, which then clears all buckets used and starts from the new position without painting; painting writes only the selected bucket, and the reported lowest and highest used bucket enclose exactly those painted with or set since the reset.",
 ["inputs", "histories"], "all bucket counts, indices, values and sequences of set, paint and reset",
 "Tests do not exercise the bucket accessors.", [B], [("bucket storage", B), ("deferred reset", B)],
 ["state and bucket getters after every operation, against a shadow model"])

prop("P20", "Object lifetimes are clean, even with work pending or memory exhausted",
 "Brushes and surfaces are freed exactly when their last reference is released, in any order of creation, referencing and release, with or without dabs still queued, and nothing they own stays allocated. When memory cannot be obtained, creation returns no object and leaks nothing, and symmetry or bounding-box growth falls back to a state in which painting remains memory-safe.",
 ["histories", "fault_sequences"], "all create/ref/use/unref orders and every single allocation failure at the sites meant to survive one",
 "No test injects allocation failures or destroys surfaces with queued work under a leak checker.",
 [B, T, "operationqueue.c", "fifo.c", "mypaint-symmetry.c", "mypaint-fixed-tiled-surface.c", "mypaint-surface.c"],
 [("reference counts", "mypaint-surface.c"), ("queue destruction", "operationqueue.c"), ("allocation failure fallbacks", T)],
 ["leak and error reports and an allocation ledger, with failures injected at chosen allocations"])

prop("P21", "Independent brushes and surfaces can be used from different threads",
 "Threads that each use their own brush and surface, sharing no object, do not race with each other and each obtains exactly the dabs and pixels it would obtain running alone. This includes creation, loading, painting with any brush (smudging and spectral mixing included), sampling and destruction.",
 ["schedules", "histories"], "all interleavings of independent instances",
 "Tests are single threaded; hidden shared buffers or lazily initialised tables only matter under concurrency.", [B, H, M, T, "mypaint-brush-settings.c"],
 [("absence of shared mutable state", H)], ["race detector reports and results of concurrent runs against solo runs"])

prop("P22", "The GEGL surface paints the same pixels as the built-in surfaces",
 "The same dab sequence painted on the GEGL-backed surface and on a plain tiled surface produces the same pixels, colour samples and changed rectangles, including negative coordinates and replaced buffers. Everything painted is present in the buffer handed back to the application.",
 ["inputs", "histories"], "all dab sequences and buffers",
 "The GEGL surface has a smoke test at most; it is not even built by default.", ["gegl/mypaint-gegl-surface.c"],
 [("buffer iterator tiles", "gegl/mypaint-gegl-surface.c")], ["GEGL buffer contents against tile store contents for the same dabs"])

prop("P23", "The fixed-size surface confines painting to its bounds",
 "On a fixed-size surface of any dimensions, dabs and samples anywhere, including far outside or across its edges, read and write only its own memory, painting inside equals painting on an unbounded canvas, and areas outside read as blank whatever was painted there. Its reported width and height are those requested and every pixel within them is backed by storage.",
 ["inputs", "histories"], "all sizes, dab positions and orders of in- and out-of-bounds access",
 "Tests paint well inside one fixed size.", ["mypaint-fixed-tiled-surface.c"], [("null tile for out-of-range requests", "mypaint-fixed-tiled-surface.c")],
 ["sanitizer reports, tile contents and samples against an unbounded reference store"])

prop("P24", "Random input and jitter are in range, uniform, fresh per dab and per brush",
 "The random input lies in [0,1) and is drawn afresh for every dab with a uniform, uncorrelated distribution, position and radius jitter are finite and bounded with zero mean and the documented spread, and no sequence length makes the generator repeat or stick. Each brush has its own sequence, starting identically for every new brush and unaffected by others.",
 ["histories"], "all lengths of draw sequences and interleavings of brushes",
 "Tests cannot see distribution, refills of the internal buffer or cross-talk in a few dabs.", ["rng-double.c", H, B],
 [("lagged Fibonacci generator with refill", "rng-double.c"), ("gaussian approximation", H)], ["random input observed through dab parameters over long runs"])

prop("P25", "Dynamics inputs report the documented physical quantity in the documented range",
 "At every dab, pressure (with gain), the two speeds, direction modulo 180, direction modulo 360, tilt declination and ascension, attack angle, barrel rotation, zoom, base radius, stroke progress, custom and grid position inputs equal their documented function of the motion, view rotation and zoom so far, within rounding. Angular inputs stay in their documented half-open range and grid positions in [0,256] for every direction, rotation and quadrant.",
 ["inputs", "histories"], "all motions, view rotations and zooms, tilts and rotations",
 "Tests never check input values; wrap-around and sign errors need all quadrants and histories.", [B, H],
 [("input computation", B), ("angle helpers", H)], ["inputs observed through identity curves on dab parameters, against a step model"])

prop("P26", "Smudging picks up and lays down canvas colour consistently",
 "A fully smudging brush moving over a uniform area never changes its colour or alpha beyond rounding, in legacy and spectral mode, with any smudge length, radius or bucket; over a transparent area it paints nothing visible. Smudge length 1 never samples the canvas, the dab colour is the smudge amount's mix of picked-up and brush colour, and the transparency limit suppresses the dab exactly when the sampled alpha is on the wrong side of it.",
 ["inputs", "histories"], "all smudge settings, canvases and strokes",
 "Tests never check smudged colours.", [B, H], [("smudge colour update", B), ("smudge application", B)],
 ["sampling calls and dabs on a recording surface, and pixels on real surfaces, against a bucket model"])

prop("P27", "Dab size, opacity and placement follow the settings",
 "Each dab's opacity is the opacity settings' product corrected for overlap by the linearise setting, its radius and hardness are adjusted for the anti-aliasing fade-out keeping the optical radius, and snapping moves centre and radius to pixel positions in proportion to the setting. Offsets move the dab by the stated multiple of the base radius along the stated axis (fixed, direction, tilt, view, and mirrored alternately), erasing lowers the dab's target alpha by the eraser setting, and all remaining settings reach the dab unchanged.",
 ["inputs", "histories"], "all combinations of the settings concerned and motions",
 "Tests do not observe dab parameters.", [B], [("dab preparation", B), ("directional offsets", B)],
 ["dab parameters and brush states on a recording surface, against an independent formula evaluation"])

prop("P28", "Transforms and rectangles follow plane geometry",
 "Every chain of rotations (clockwise with y up, or counter-clockwise), reflections in a line through the origin and translations, started from the unit transform, maps each point as the named operations applied one after the other do, within float rounding, and undoing a step restores the map. Including points and non-empty rectangles in an initially empty rectangle gives exactly their smallest common bounding rectangle, changes no argument, and copies are independent.",
 ["inputs", "histories"], "all chains of transforms and points, and all sequences of inclusions whose extent fits in an int",
 "Tests use neither directly; symmetry exercises only the compositions it needs, with a few angles.", ["mypaint-matrix.c", "mypaint-rectangle.c"],
 [("matrix composition", "mypaint-matrix.c"), ("rectangle growth", "mypaint-rectangle.c")], ["mapped points and rectangle fields after each call"])

prop("P29", "Colour conversions match their definitions, invert and stay in range",
 "For every RGB colour in the unit cube, conversion to HSV, HSL or HCY (luma weights 0.2126, 0.7152, 0.0722) yields the defined coordinates and converting back returns the colour within float rounding; spectral upsampling returns it within 2e-3. HSV and HSL values outside their range convert like the nearest value in range with the hue taken modulo one, and results are always RGB in [0,1]. Mixing two colours interpolates alpha, and colour linearly in additive mode, returns either end at factors 1 and 0 and stays in range in every mode.",
 ["inputs"], "all RGB, HSV, HSL and HCY triples, mixing factors and modes",
 "Tests convert no colours; sector boundaries, near-greys and near-white are single points of a continuous space.", [H],
 [("colour space conversions", H), ("spectral upsampling", H), ("mixing for smudge", H)], ["results of each conversion and of its inverse"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
NEW = {
 'P01': 'For every history of public API calls with valid objects and any numbers in them (brush settings, dynamics and documents, finite, infinite or NaN motion events, dabs and samples, symmetry changes, rectangle arrays of any capacity, tile stores that refuse tiles), the library makes no out-of-bounds, use-after-free or uninitialised access, executes no undefined operation, and does not abort. When every object has been released, no memory remains allocated. (Dabs at distances of 50 thousand to 1.3 million pixels, whose queueing needs gigabytes, are excepted.)',
 'P02': 'Passing any string (malformed, truncated, hostile or well-formed) to the brush loader returns a boolean without crashing, aborting, hanging or leaking. Text that is no brush document (unparsable, not version 3, without a settings object or a known setting) is refused and changes no setting. After any load, accepted or rejected, every setting, curve and state can still be queried and strokes do not crash; once a valid brush is loaded and reset, it paints exactly as a brush that never saw the earlier strings.',
 'P04': "For every curve configuration and input vector, a setting evaluates to its base value plus, for each input with a curve, the piecewise-linear function through that curve's points, extended linearly with the first and last segments' slopes outside its range; where x coordinates coincide the value is one of the curve's y values there, and always finite. Inputs without points contribute nothing, and 'constant' and the number of used inputs always agree with the curves currently set, through any sequence of edits.",
 'P09': 'Painting a sequence of dabs in one transaction, in many transactions, or interleaved with colour sampling at any point gives bit-identical pixels: queued dabs are applied to each tile exactly once and in the order issued, and sampling sees all dabs issued before it. Tiles are requested and released in matched pairs with correct coordinates, at most once per tile per flush, no queued dab survives the end of its transaction, and a tile the store cannot provide loses only the dabs queued for that tile.',
 'P10': 'With a surface that declares thread-safe tile requests, ending a transaction or sampling a colour on any number of threads under any schedule has no data race, never hands the same tile to two workers at once, and leaves pixels and reported rectangles bit-identical to single-threaded processing. Colours sampled in parallel agree with the sequential ones up to rounding.',
 'P12': 'Two runs making the same calls from creation on identical surfaces produce identical dabs, pixels and return values, whatever the prior contents of memory, other brushes in use, or the number of previous strokes by other instances. After a brush whose pending reset has been consumed is given the saved states, settings and buckets of another at an event boundary, it continues as the other does, apart from random inputs, tracking noise and dynamics on the grid map scale.',
 'P14': 'For every brush whose settings stay within the published ranges after dynamics and every sequence of motion events, including non-finite, huge or negative coordinates, pressures, tilts and times, each dab passed to the surface has finite position and parameters, a radius greater than 0 and at most about 1000, and opacity, hardness and softness in [0,1]; directional offsets move it by at most 3240 pixels per axis. Non-finite coordinates or coordinates beyond 100 million never paint and leave every brush state finite.',
 'P15': 'For every brush configuration within the published setting ranges and every motion event, processing the event terminates after emitting a number of dabs bounded by the distance and time it covers times the highest dab density the brush can have, and stroke processing never stalls. A motion that covers no distance in negligible time emits at most one dab.',
 'P16': 'Sampling any area of uniform colour returns that colour and alpha for every radius, position and sampling mode, within rounding (in spectral modes, the accuracy of the spectral transform); any sample is in [0,1] with alpha between the smallest and largest alpha sampled, and legacy-mode samples, and all samples of radius up to two, are the opacity-weighted average of the area under the soft sampling disc. A fully transparent area gives alpha 0, and sampling leaves all pixels unchanged apart from applying dabs already queued.',
 'P18': 'The result of each motion event says whether to split the stroke: true for the event that performs a reset, after more than about four seconds plus three times pressure of painting when pressure is not falling, after more than one second of idling with nothing painted, or when painting plus idling exceeds 0.9 seconds plus five times pressure while idle; false otherwise. The total painting time is the sum of the durations of the painting events since the stroke began, and a new stroke resets it to zero. A press after more than 0.1 s without pressure is processed as an unpressed event of nearly the whole duration, whose result is not returned, followed by a short pressed one.',
 'P19': "A state or smudge bucket that is written reads back exactly and no other state or bucket changes; bucket access fails, changing nothing, exactly when the index is outside the brush's capacity. A requested reset leaves states untouched until the next motion event, which then clears all states and all buckets used and starts from the new (tracked) position without painting. Smudging writes only the selected bucket, and the reported lowest and highest used bucket are exactly the extremes of those smudged with or set since the reset, or -1 if there are none.",
 'P20': 'Brushes and surfaces are freed exactly when their last reference is released, in any order of creation, referencing and release, with or without dabs still queued, whether references are counted directly or as GObject boxed values, and nothing they own stays allocated. When any allocation fails during creation, either no object is returned and nothing leaks, or the object works fully; when symmetry or bounding-box growth fails painting goes on memory-safely, and full function returns once memory is available again.',
 'P22': "The same dab sequence painted on the GEGL-backed surface and on a plain tiled surface produces the same pixels, colour samples and changed rectangles, including negative coordinates, parallel processing and buffers replaced by ones of other extent, tile size or offset (within rounding where the buffer's own pixel format differs). Everything painted is present in the buffer handed back to the application and in a PNG saved of the surface, and sampling leaves the buffer untouched.",
 'P24': 'The random input lies in [0,1] and is drawn afresh for every dab with a uniform, uncorrelated distribution, position and radius jitter are finite and bounded with zero mean and the documented spread, and no sequence length makes the generator repeat or stick. Tracking noise is renewed once per half its width of motion, however often the motion is reported. Each brush has its own sequence, starting identically for every new brush and unaffected by others.',
 'P25': 'At every dab, pressure (with gain), the two speeds, direction modulo 180, direction modulo 360, tilt declination and ascension, attack angle, barrel rotation, zoom, base radius, stroke progress, custom and grid position inputs equal their documented function of the motion, view rotation and zoom so far, within rounding (the grid position uses the grid scale settings of the step before). Tilts beyond the ends of their range count as the ends. Angular inputs stay in their documented range (within rounding of its open end) and grid positions in [0,256] for every direction, rotation and quadrant.',
 'P26': "A fully smudging brush moving over a uniform area never changes its colour or alpha beyond rounding, in legacy and spectral mode, with any smudge length, radius or bucket; over a transparent area it paints nothing visible. Smudge length 1 never samples the canvas, samples are taken within 1.5 pixels of the dab, and the dab colour is the smudge amount's mix of picked-up and brush colour. The transparency limit suppresses a dab that samples exactly when the sampled alpha is on the wrong side of it, and a suppressed dab picks nothing up.",
}
for q in P:
    q["statement"] = NEW.get(q["id"], q["statement"])

with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
