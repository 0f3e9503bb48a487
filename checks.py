"""What each check builds and runs."""
SAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all".split()
SANF = SAN + ["-fsanitize=float-cast-overflow"]
LIMIT = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:print_legend=0:max_allocation_size_mb=1024"}
OPT = "-g -O2".split()
TSAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=thread".split()
WRAP = dict(extra=["heap_wrap.c"], ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"])
INTERPOSE = dict(extra=["heap_interpose.c"])
CONFIGS = {
    "san": dict(cc="gcc", cxx="g++", cflags=SAN, cxxflags=SAN, ldflags=["-fsanitize=address,undefined"]),
    "sanf": dict(cc="gcc", cxx="g++", cflags=SANF, cxxflags=SAN, ldflags=["-fsanitize=address,undefined"]),
    "opt": dict(cc="gcc", cxx="g++", cflags=OPT, cxxflags=OPT),
    # OpenMP pragmas compiled in, run by our own instrumented parallel runtime (gomp_shim.c) instead of libgomp
    # the monitors themselves stay uninstrumented: their bookkeeping must not order the library's threads
    "tsanomp": dict(cc="gcc", cxx="g++", cflags=TSAN + ["-fopenmp"], cxxflags=OPT + ["-DVP_OMP"], ldflags=["-fsanitize=thread"],
                    extra=["gomp_shim.c"], shimflags=OPT),
    "omp": dict(cc="gcc", cxx="g++", cflags=OPT + ["-fopenmp"], cxxflags=OPT + ["-DVP_OMP"], extra=["gomp_shim.c"], shimflags=OPT),
    "tsan": dict(cc="gcc", cxx="g++", cflags=TSAN, cxxflags=OPT, ldflags=["-fsanitize=thread"]),
}
Q = lambda q, t: {"quick": q, "thorough": t}
CHECKS = {}

CHECKS["P05"] = dict(
    technique="runtime monitor: reported rectangles against a full pixel diff of each transaction, under ASan+UBSan",
    note="Random histories only; the pixel diff is exact for every transaction executed.",
    jobs=[dict(src="p05.cpp", cfg="san", cases=Q(1600, 60000))],
    rule="a case is a random history of transactions (dabs, sampling, symmetry changes, rectangle capacities 0..300) on one surface; "
         "one evaluation is one transaction whose reported rectangles were compared with a full pixel diff; non-trivial when at least one "
         "pixel changed; distinct by hash of (changed pixel count, rectangles, symmetry)",
    require=["transactions_changed", "symmetry_transactions", "merged_transactions"])

CHECKS["P06"] = dict(
    technique="runtime monitor: invariant scan of every touched pixel after each dab, plus differential runs with clamped arguments, under ASan+UBSan",
    note="Random canvases and dab parameters; the scan after each executed dab is complete.",
    jobs=[dict(src="p06.cpp", cfg="san", cases=Q(5000, 200000))],
    rule="a case is a random canvas (noise biased to boundary values, uniform or blank) hammered with 4..14 dabs of one mode family, a third of "
         "them with out-of-range arguments; every pixel of every touched tile is checked after each dab, and hostile dabs are compared bit for bit "
         "with the same dab clamped by the harness; one evaluation is one dab; non-trivial when it modified the surface; distinct by its parameters",
    require=["dabs_modifying", "clamp_comparisons", "fixed_surfaces", "posterize", "colorize", "lock_alpha", "paint"])

CHECKS["P07"] = dict(
    technique="runtime monitor: pixels after each dab against an independent double-precision evaluation of the mode's documented formula, under ASan+UBSan",
    note="Random pixels, masks and colours; every changed pixel of each executed dab is compared, within fixed-point tolerances derived from the reference interval.",
    jobs=[dict(src="p07.cpp", cfg="san", cases=Q(6000, 200000))],
    rule="a case is one dab of one mode family (normal, erase, lock-alpha, colorize, posterize, spectral variants, combinations) on a noise canvas, "
         "compared pixel by pixel with the reference; one evaluation is one dab; distinct by hash of mode parameters and resulting pixels",
    require=["normal", "erase", "lock", "colorize", "posterize", "paint", "paint-erase", "paint-lock", "opaque-paint", "combined"])

CHECKS["P08"] = dict(
    technique="runtime monitor: opacity of every pixel around a dab against the documented two-segment profile, plus translation and tile-boundary metamorphic runs, under ASan+UBSan",
    note="Random geometry; every pixel of the surroundings of each executed dab is compared.",
    jobs=[dict(src="p08.cpp", cfg="san", cases=Q(6000, 200000))],
    rule="a case is one random dab geometry (radius, ratio, angle, hardness, softness, position incl. tile corners) painted on a blank store; non-trivial when it "
         "marks pixels; distinct by hash of the pixels",
    require=["elliptic", "large_dabs", "moves", "degenerate", "negative_coordinates", "pixels_marked"])

CHECKS["P09"] = dict(
    technique="runtime monitor: tile request protocol checker over the event log, and differential runs (one transaction, one per dab, random transactions with sampling), under ASan+UBSan",
    note="Random dab sequences; protocol and pixels are checked for every transaction executed.",
    jobs=[dict(src="p09.cpp", cfg="san", cases=Q(2400, 100000))],
    rule="a case is a random sequence of dabs and samples executed three ways; one evaluation is one way; distinct by hash of the final pixels",
    require=["sequences", "accumulations", "samples_with_queued_dabs", "far_apart", "long_queues"])

CHECKS["P11"] = dict(
    technique="runtime monitor: pixels painted with symmetry against the same dabs issued one by one at independently computed images, under ASan+UBSan",
    note="Random symmetry states and change points; pixels compared within rounding of the image positions.",
    jobs=[dict(src="p11.cpp", cfg="san", cases=Q(5000, 200000))],
    rule="a case is a random history of transactions and symmetry changes; one evaluation is one transaction; distinct by hash of symmetry state and pixels",
    require=["type_0", "type_1", "type_2", "type_3", "type_4", "changes_inside_transaction", "single_changes"])

CHECKS["P01"] = dict(
    technique="runtime monitor: AddressSanitizer, UndefinedBehaviorSanitizer (with out-of-range float conversions) and LeakSanitizer over random histories of the whole public API with hostile arguments; the same histories under valgrind memcheck, which asserts that everything handed back is initialised",
    note="Histories are random; hangs are judged by the watchdog, dabs 50000 to 1.4 million pixels out are not drawn (queueing them takes gigabytes by design).",
    jobs=[dict(src="p01.cpp", cfg="sanf", cases=Q(320, 12000), env=LIMIT), dict(src="p01.cpp", cfg="opt", cases=Q(64, 1600), wrap=["valgrind", "-q"], chunks=2)],
    rule="a case is a history of up to 90 calls over up to 4 brushes and 4 surfaces (fixed, or with a tile store that may refuse tiles): events, dabs, sampling, symmetry, tile requests, loading, curve, base, state and bucket accesses, "
         "references and releases, mapping and rectangle functions, with hostile numbers mixed in; one evaluation is one call; distinct by the sequence of operations",
    require=["hostile_events", "direct_dabs", "non_finite_dabs", "samples", "symmetry_changes", "tile_requests", "loads", "bucket_accesses", "histories_with_refused_tiles", "mapping_histories", "memcheck_histories", "surfaces_freed"])

CHECKS["P14"] = dict(
    technique="runtime monitor: range assertions on the parameters of every dab and on all brush states, under hostile motion events, under ASan+UBSan",
    note="Random brushes whose settings stay in their published ranges whatever the inputs, and random events half of which carry hostile values.",
    jobs=[dict(src="p14.cpp", cfg="san", cases=Q(5000, 150000))],
    rule="a case is one brush with up to 40 events, half of them with NaN, infinite, huge, negative or vanishing coordinates, pressures, tilts, times, zooms or rotations; "
         "one evaluation is one dab whose 17 parameters, offset and underlying brush position were checked; all states are checked after every event; distinct by the dab's parameters",
    require=["dabs_of_hostile_events", "insane_positions", "dabs_of_full_hardness", "samples", "far_reaching"])

CHECKS["P15"] = dict(
    technique="runtime monitor: dab counter per motion event against the bound from distance, time and the brush's highest density, aborting an event from inside its dab callback, under ASan+UBSan",
    note="Random brushes and motions from zero length to 1e8 px; an event that emits no dabs and does not return is found by the runner's liveness limit.",
    jobs=[dict(src="p15.cpp", cfg="san", cases=Q(8000, 300000))],
    rule="a case is one brush (dabs per radius and per second up to the published maxima) with up to 25 motions sized to cost up to 3000 dabs, at coordinates up to 1e8; one evaluation "
         "is one event whose dabs were counted against the bound; distinct by (dabs, distance)",
    require=["events_near_the_bound", "events_of_1000_dabs", "events_below_the_position_resolution", "motionless_events"])

CHECKS["P16"] = dict(
    technique="runtime monitor: samples against the pixels inside the sampled disc, full pixel diff around each sample, under ASan+UBSan",
    note="Random canvases, positions, radii and modes. Spectral sampling is compared within the error of the fast power approximation it uses.",
    jobs=[dict(src="p16.cpp", cfg="san", cases=Q(3000, 100000))],
    rule="one evaluation is one sample of a uniform, transparent, noisy, two-valued, bordered or just painted canvas; distinct by hash of canvas kind and result",
    require=["uniform", "transparent", "noise", "two_valued", "queued", "legacy", "additive", "spectral", "mixed", "large_radius", "borders", "legacy_averages", "small_averages", "spectral_averages"])

CHECKS["P23"] = dict(
    technique="runtime monitor: fixed surface against an unbounded reference store (pixels, samples, outside tiles), tile backing read/write test, under ASan+UBSan",
    note="Random sizes and dab positions; pixels compared exactly.",
    jobs=[dict(src="p23.cpp", cfg="san", cases=Q(5000, 150000))],
    rule="a case is one surface size with 4..24 dabs inside, across and outside its edges, or one surface beyond 2^16 tiles and 2^31 bytes; one evaluation is one dab or tile; distinct by size and final pixels",
    require=["dabs_inside", "dabs_outside", "dabs_across_edges", "outside_reads", "samples", "huge_surfaces"])

CHECKS["P02"] = dict(
    technique="runtime monitor: structural fuzzing of the loader under ASan+UBSan+LSan with curve-validity checks after each load and a differential reload against a fresh brush",
    note="Random and structurally mutated strings; crash, leak, curve and reload oracles are evaluated for each.",
    jobs=[dict(src="p02.cpp", cfg="san", cases=Q(900, 40000))],
    rule="a case is 1..12 hostile strings loaded into one brush, then a valid document and a short stroke compared with a fresh brush; one evaluation is one hostile string; "
         "distinct by hash of the strings so far",
    require=["accepted", "rejected", "rejected_in_part", "no_brush", "reloads", "dabs_after_bad_loads"])

CHECKS["P03"] = dict(
    technique="runtime monitor: shadow model of every base value and curve through random load/default/edit histories, and published metadata against the definition file, under ASan+UBSan",
    note="Random documents; every getter is compared after each load. The metadata comparison is exhaustive.",
    jobs=[dict(src="p03.cpp", cfg="san", cases=Q(900, 40000))],
    rule="a case is a history of loads, defaults and edits on one brush; one evaluation is one document; distinct by hash of the documents",
    require=["full_documents", "partial_documents", "empty_documents", "rejected", "defaults", "metadata", "curves"])

CHECKS["P04"] = dict(
    technique="runtime monitor: shadow model of curve edits and an independent evaluator, on mapping objects and, through pass-through settings of brushes, on emitted dabs, under ASan+UBSan",
    note="Random curves, edits and inputs. Where x coordinates coincide any of the curve's values there is accepted.",
    jobs=[dict(src="p04.cpp", cfg="san", cases=Q(4000, 150000))],
    rule="a case is an edit history of a mapping object or a brush painted twice (identity curves, then random curves); one evaluation is one input vector or dab; distinct by "
         "hash of results",
    require=["evaluations", "edit_histories", "brush_dabs", "single_input"])

CHECKS["P13"] = dict(
    technique="runtime monitor: every executed step of random strokes against an independent uncertainty-carrying step model, plus closed-form dab counts/positions and event-splitting metamorphic runs, under ASan+UBSan",
    note="Random strokes; the model restarts from the observed state after every dab, so each step is judged on its own.",
    jobs=[dict(src="p13.cpp", cfg="san", cases=Q(1500, 60000))],
    rule="a case is a stroke of up to 50 events stepped through the model, or a straight motion run unsplit and split into up to 41 events and compared with the closed form; one evaluation is one event "
         "or one run; distinct by dab counts and end points",
    require=["closed_form_dabs", "dabs_modelled", "splits", "late_presses", "resets", "events_without_dab", "events_with_one_dab", "events_with_more_dabs"])

CHECKS["P25"] = dict(
    technique="runtime monitor: the value each of the brush inputs takes at every dab, exposed through pass-through settings, and the filtered motion states, against an independent step model, under ASan+UBSan",
    note="Random strokes, tilts and views; inputs too close to a wrap or a threshold to call are skipped and counted.",
    jobs=[dict(src="p25.cpp", cfg="san", cases=Q(800, 40000))],
    rule="a case is a stroke whose brush exposes five of the inputs through identity curves; one evaluation is one event; distinct by inputs and dab counts",
    require=["state_comparisons", "excess_tilt"])

CHECKS["P17"] = dict(
    technique="runtime monitor: colour of every dab of random strokes against an independent HSV/HSL evaluation of the modelled settings, under ASan+UBSan",
    note="Random colours and change curves; channels whose value is ill conditioned (hue of near-greys) are skipped and counted.",
    jobs=[dict(src="p17.cpp", cfg="san", cases=Q(6000, 250000))],
    rule="a case is a stroke with a random base colour and random constant or dynamic change settings, in linear or encoded mode; one evaluation is one dab; distinct by hash of the colours",
    require=["unchanged", "hsv", "hsl", "hsv_and_hsl", "linear_unchanged", "linear_changed", "channels_compared"])

CHECKS["P26"] = dict(
    technique="runtime monitor: every smudging dab (whether and how the canvas is sampled, bucket contents, suppression, colour, target alpha) against an independent reference, and pixel drift on uniform canvases, under ASan+UBSan",
    note="Random smudge settings and canvases. On real canvases a drift growing with the number of dabs is tolerated (fixed-point rounding, spectral round trip).",
    jobs=[dict(src="p26.cpp", cfg="san", cases=Q(6000, 250000))],
    rule="a case is a stroke of a smudging brush over a synthetic canvas judged dab by dab, or a fully smudging stroke over a uniform real canvas; one evaluation is one dab or one stroke; distinct by hash of colours",
    require=["suppressed", "legacy_samples", "spectral_samples", "mixed_samples", "picked_up", "reused_sample", "full_smudge", "partial_smudge", "length_one", "bucket_dabs",
             "transparent_canvas", "opaque_canvas", "translucent_canvas", "canvas_legacy", "canvas_spectral", "canvas_with_limit", "alpha_at_limit"])

CHECKS["P27"] = dict(
    technique="runtime monitor: every parameter of every dab of random strokes against an independent evaluation of opacity, edge softening, snapping, offsets and pass-through settings, under ASan+UBSan",
    note="Random settings and curves; parameters too close to a snapping or wrap boundary are skipped and counted.",
    jobs=[dict(src="p27.cpp", cfg="san", cases=Q(4000, 150000))],
    rule="a case is a stroke with random size, opacity, placement and blend settings; one evaluation is one dab; distinct by hash of the parameters",
    require=["snapped", "linearised", "offset", "erasing", "softened_edges", "jittered_radius", "parameters_compared"])

CHECKS["P28"] = dict(
    technique="runtime monitor: every point mapped by random transform chains against a double-precision composition, every rectangle against the exact extent of what was included, under ASan+UBSan",
    note="Random chains of up to 12 transforms and up to 30 inclusions; rectangles spanning more than the int range are not judged.",
    jobs=[dict(src="p28.cpp", cfg="san", cases=Q(40000, 2000000))],
    rule="a case is one transform chain (each prefix probed with points and undone) or one series of inclusions into a rectangle; one evaluation is one prefix; distinct by hash of the mapped points or rectangles",
    require=["points", "rotations", "reflections", "translations", "inverses", "points_added", "rectangles_added", "copies"])

CHECKS["P29"] = dict(
    technique="runtime monitor: colour conversions against independent definitions, inverses and ranges over random, boundary and out-of-gamut colours, under ASan+UBSan",
    note="Random colours with extra weight on greys, primaries, near-white and near-black; tolerances are float rounding, and 2e-3 for the spectral transform.",
    jobs=[dict(src="p29.cpp", cfg="san", cases=Q(2500, 40000))],
    rule="a case is 400 colours (thorough 4000), each converted to HSV, HSL, HCY and spectral form and back, from those spaces, and mixed with another; one evaluation is one colour; distinct by hash of the conversions",
    require=["round_trips", "hcy_round_trips", "spectral_round_trips", "definitions", "hues_compared", "mixes", "angles"])

CHECKS["P18"] = dict(
    technique="runtime monitor: the return value and painting time of every motion event against an independent stroke-splitting state machine driven by the dabs and samples observed, under ASan+UBSan",
    note="Random strokes with held pressures, pauses, resets, new strokes and surfaces that refuse dabs; events within rounding of a time threshold are not judged.",
    jobs=[dict(src="p18.cpp", cfg="san", cases=Q(4000, 200000))],
    rule="a case is one brush fed up to 200 events with phases of held or no pressure, paused and hostile time steps and a surface that accepts or refuses dabs; one evaluation is one event; "
         "distinct by painting and idle time",
    require=["idle", "late_presses", "new_strokes", "painting", "pressure_falling", "reset", "skipped_events", "split_after_painting", "split_idle", "split_painting"])

CHECKS["P10"] = dict(
    technique="race detector and differential monitor: ThreadSanitizer on parallel regions run by an instrumented OpenMP runtime with injected delays; tile hand-outs, pixels, rectangles and samples against a sequential twin",
    note="Schedules are sampled (2 to 8 workers, random yields and sleeps); the race detector judges happens-before, not only the interleaving seen.",
    jobs=[dict(src="p10.cpp", cfg="tsanomp", cases=Q(900, 40000))],
    rule="a case is up to three transactions of dabs and samples on a surface that declares thread-safe tiles and on a sequential twin; one evaluation is one transaction; distinct by pixels and schedule seed",
    assumptions=["OpenMP regions are executed by harness/gomp_shim.c (pthreads) instead of libgomp"],
    require=["transactions", "samples", "large_samples", "dabs"])

CHECKS["P12"] = dict(
    technique="runtime monitor: the complete observable log of one script of calls compared bit for bit over runs with differently filled heap and stack memory and other brushes at work; a brush given another's saved state compared dab by dab with the original",
    note="Random scripts. Uninitialised reads show only where they influence something observable.",
    jobs=[dict(src="p12.cpp", cfg="opt", cases=Q(900, 60000), **WRAP)],
    rule="a case is a script of up to 60 calls run four times (memory filled with 0x00, 0xaa, 0xff, or scrambled with other brushes active), or a state transfer between two brushes; one evaluation is one run or transfer; "
         "distinct by hash of the log",
    require=["scripts", "fixed_surfaces", "with_buckets", "transfers", "transfers_with_buckets", "dabs_after_transfer"])

CHECKS["P19"] = dict(
    technique="runtime monitor: every state and smudge bucket after every operation of random histories (set, get, paint, reset, load) against a shadow copy, with the selected bucket computed by the harness at each dab, under ASan+UBSan",
    note="Random histories; all states and buckets are compared after each operation.",
    jobs=[dict(src="p19.cpp", cfg="san", cases=Q(4000, 150000))],
    rule="a case is a history of up to 80 operations on a brush with 0..256 buckets and a bystander brush; one evaluation is one motion event; distinct by hash of all states and buckets",
    require=["with_buckets", "without_buckets", "states_set", "buckets_set", "out_of_range", "resets", "resets_late", "strokes", "smudging_dabs", "sampled_dabs", "neutral_operations"])

CHECKS["P20"] = dict(
    technique="runtime monitor: allocation ledger over random create/reference/use/release histories, and failure injection at every allocation of a creation and at symmetry and rectangle growth; once under ASan+UBSan+LSan, once with the whole process' allocator replaced (json-c included)",
    note="Histories are random; single and persistent failures are injected exhaustively per creation call.",
    jobs=[dict(src="p20.cpp", cfg="san", cases=Q(2500, 80000), glib=True, **WRAP), dict(src="p20.cpp", cfg="opt", cases=Q(2500, 80000), glib=True, **INTERPOSE)],
    rule="a case is a lifetime history of up to 90 operations on up to 5 brushes and 5 surfaces, one creation call repeated with each allocation failing, or a surface whose symmetry and rectangle growth fails now and then; "
         "one evaluation is one operation, creation or transaction; distinct by operations and live blocks",
    require=["lifetimes", "brushes_freed", "surfaces_freed", "freed_with_queued_dabs", "creations", "growths", "failures_injected", "covered", "empty_transactions", "boxed_copies", "boxed_frees"])

CHECKS["P24"] = dict(
    technique="runtime monitor: statistical oracles (distribution, correlation, lag relations, repetition, bounds) over the random input and jitter observed in emitted dabs; interleaved brushes against a solo twin",
    note="Statistical thresholds lie 8 or more standard deviations out; a generator defect smaller than that over the sequences drawn is not seen.",
    jobs=[dict(src="p24.cpp", cfg="opt", cases=Q(600, 4000))],
    rule="a case is one long sequence of dabs of one brush (5000 quick, 60000 thorough) or 2..4 identically set brushes used in random alternation; one evaluation is one observed random quantity; "
         "distinct by hash of the sequence",
    require=["random_input", "jitter_x", "jitter_y", "jitter_radius", "tracking_noise", "noise_steps", "noise_skips", "interleaved_brushes"])

CHECKS["P21"] = dict(
    technique="race detector and differential monitor: threads running random API scripts on their own brushes and surfaces under ThreadSanitizer with injected delays, each log compared with a solo run",
    note="Schedules are sampled (2 to 6 threads, random yields and sleeps, many short processes so that first-use initialisation happens concurrently); the race detector judges happens-before, not only the interleaving seen.",
    jobs=[dict(src="p21.cpp", cfg="tsan", cases=Q(200, 8000), chunks=5, gegl=True, glib=True)],
    rule="a case is 2..6 threads each running one or two rounds of a script of creation, loading, painting, sampling, symmetry, state access and destruction; one evaluation is one thread; distinct by hash of its log",
    require=["same_script", "different_scripts", "fixed_surfaces", "tile_stores", "with_buckets", "samples", "loads", "direct_dabs"])


GEGL = dict(gegl=True, glib=True, env={"GEGL_SWAP": "RAM"})
CHECKS["P22"] = dict(
    technique="runtime monitor: GEGL surface and plain tile store fed the same history, all pixels, samples, rectangles and extents compared after each transaction, under ASan+UBSan, and again with tiles processed in parallel (thorough: under TSan as well)",
    note="Random histories over fresh, native, differently tiled, shifted and floating-point buffers; pixels equal exactly where the buffer holds the surface's own format.",
    jobs=[dict(src="p22.cpp", cfg="san", cases=Q(800, 40000), **GEGL), dict(src="p22.cpp", cfg="omp", cases=Q(1600, 60000), **GEGL),
          dict(src="p22.cpp", cfg="tsanomp", cases=Q(0, 12000), **GEGL)],
    rule="a case is up to five transactions of dabs, samples and symmetry changes with the backing buffer replaced in between; one evaluation is one transaction; distinct by hash of the pixels",
    assumptions=["GEGL itself is not instrumented", "OpenMP regions are executed by harness/gomp_shim.c (pthreads) instead of libgomp"],
    require=["histories", "samples", "samples_outside", "sampling_only", "fresh_buffers", "replaced_native", "replaced_tiling", "replaced_float", "replaced_shifted", "symmetry", "pictures"])
