"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
W = "src/gsply/writer.py"; R = "src/gsply/reader.py"; F = "src/gsply/formats.py"
G = "src/gsply/gsdata.py"; U = "src/gsply/utils.py"; S = "src/gsply/sog_reader.py"
T = "src/gsply/torch/gstensor.py"; C = "src/gsply/torch/compression.py"; IO = "src/gsply/torch/io.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Uncompressed save then load is bit-exact",
  "Saving scene data in uncompressed PLY form and reading it back returns every position, scale, rotation, opacity and colour coefficient with exactly the float32 bits that were saved, in the same order and with the same SH degree, for any number of Gaussians including none. "
  "The file on disk is the standard 3DGS little-endian PLY (x y z, f_dc, channel-grouped f_rest, opacity, scale, rot; nothing before, between or after), as read by any independent PLY parser, and is byte-for-byte the same whichever entry point or memory layout the data came from.",
  ["inputs", "configurations"],
  "every N, every SH degree 0-3, every float32 value (NaN payloads, infinities, -0, denormals), every dtype and memory layout of the inputs, container or separate arrays, with or without the shared backing buffer, and every save entry point (function, method, tensor container).",
  "Tests round-trip a few random scenes with allclose at one or two sizes; bit patterns, sizes around buffer thresholds, layouts and SH 1/2 are not enumerated.",
  [W, R, F, G], [("uncompressed writer, interleaving kernels, zero-copy path", W), ("uncompressed reader with views into one array", R), ("header templates", W)],
  ["file bytes after save", "arrays returned by load"])
p("P02", "Uncompressed PLY from other tools is read exactly or refused",
  "For any binary little-endian 3DGS PLY in the standard property order written by some other program (any comments, header length, line order the PLY grammar allows, trailing bytes), loading either returns exactly the stored values, or raises a clear error; it never returns shifted, truncated, reordered or invented values. Files whose header differs from the library's own only by comment or obj_info lines are always read.",
  ["inputs"], "every header variant (comments, obj_info, long headers, extra elements, other types or property orders, ASCII or big-endian encodings), SH degree and size, including files shorter or longer than announced.",
  "Tests read one sample file and files produced by the library itself; foreign header shapes and length mismatches are hardly sampled.",
  [R, F], [("header parsing and property validation", R), ("property tables", F)], ["result of load against an independent PLY parser"])
p("P03", "Compressed PLY from any encoder decodes to the format's values",
  "Loading a compressed (PlayCanvas chunked) PLY, or decompressing it from bytes, yields for every Gaussian the values that the published packing defines: 11-10-11 bit positions and log-scales and 8-bit colours interpolated between its own chunk's bounds, 8-bit opacity as a logit (saturating at finite values), smallest-three unit quaternions, and 8-bit SH coefficients in channel-grouped order. This holds for every bit pattern of the packed words, and the file and in-memory readers return the same thing.",
  ["inputs"], "all packed 32-bit words, finite chunk bounds up to 1e37 (including degenerate, reversed and huge ranges), any N including last partial chunks and exact multiples of 256, all SH degrees, header comments and long headers.",
  "Tests only decode what the library's own encoder produced, so encoder and decoder errors cancel and most packed words never occur.",
  [R, F], [("fused unpacking kernels and SH unpacking", R), ("quantisation constants", F)], ["arrays returned by load / decompress-from-bytes against a float64 reference decoder"])
p("P04", "Compressed output conforms to the packed format",
  "Every compressed file, byte string or array set the library produces is a well-formed PlayCanvas compressed PLY: header counts match the payload exactly, each chunk's stored bounds are the true minimum and maximum of its Gaussians (log-scales clamped to [-20, 20]), and every packed field is the nearest representable code (SH: truncation of 32*x+128, clamped) of the value it encodes, for any bounds whose difference is at least 1e-10 and a float32 number, or zero.",
  ["inputs", "configurations"], "any finite scene, N around multiples of 256, constant and degenerate chunks (ranges below 1e-9 count as constant), infinite log-scales, quaternions of norm 1e-6 to 1e12, all SH degrees, all layouts and entry points.",
  "Tests compare sizes and loose round-trip errors for a few random scenes; the codes themselves are never compared with an independent encoder.",
  [W, F], [("chunk bounds and packing kernels", W), ("SH quantisation", W)], ["bytes produced by save / compress-to-bytes / compress-to-arrays"])
p("P05", "Compressed round trip loses at most quantisation error",
  "After compressing and decompressing any finite scene, each position and log-scale is within half a code step of its chunk's range (11 or 10 bits), each colour within half of 1/255 of its range, each linear opacity within half of 1/255, each rotation is the same rotation up to sign within 10-bit component error, and each SH coefficient in [-4, 4) within 1/32. Order, count and SH degree are preserved, values constant within a chunk come back unchanged, and compressing the result again does not drift. (Ranges must fit in a float32; below 1e-10 only the range itself bounds the error.)",
  ["inputs", "histories"], "every finite scene (chunk ranges below 1e-9 count as constant, quaternion norms 1e-6 to 1e12) of any size and SH degree through every compress/decompress pair (file, bytes, arrays, tensors of any floating precision), and repeated compress-decompress generations.",
  "Tests allow wide absolute tolerances on random normal data at a few sizes and check few fields.",
  [W, R, C], [("quantise", W), ("dequantise", R)], ["decoded arrays against originals"])
p("P06", "Every way of saving the same scene stores the same scene",
  "The stored content depends only on the scene: saving through the function, the object method, in-memory compression, component arrays (already in log/logit form), or the tensor container gives files that decode to the same Gaussians, whether the data is held in linear or log/logit form, as RGB or SH colour, contiguous or not, consolidated or not. Stored scales are always logs, opacities always logits and colours always SH coefficients, exactly as a reader will interpret them.",
  ["inputs", "configurations"], "all combinations of save entry point, compression choice, declared data format (each of scales, opacities and colour independently), SH degree and memory representation.",
  "Tests exercise most entry points only with data already in PLY form, and never compare them with each other across formats.",
  [W, G, T, C, IO], [("conversion to file format before writing", W), ("tensor save", T)], ["decoded file content for each entry point"])
p("P07", "Hostile or damaged PLY input is refused, never a hang or memory fault",
  "For any byte sequence offered as a PLY file or as compressed bytes - truncated anywhere, bit-flipped, wrong counts, malformed header lines, inconsistent elements - loading, decompressing and format detection of the regular file or bytes finish in time proportional to the input and either return a consistent scene or raise an ordinary error of the documented kind (ValueError, or OSError for unreadable files). They never read outside the supplied data, return values that are not in it, crash the process or loop forever.",
  ["inputs", "fault_sequences"], "every truncation point and mutation of valid files, and arbitrary bytes (regular files, not pipes or devices), through the file, bytes and tensor readers and the detector.",
  "Tests try a missing file, one garbage file and an ASCII file.",
  [R, F, C], [("header parsers", F), ("size and count checks before native kernels", R)], ["exception type, result shape, executed steps, guarded native accesses"])
p("P08", "Format detection agrees with loading",
  "Format detection never raises or hangs and never modifies anything: it reports compressed exactly when the file is laid out as a compressed PLY, otherwise the SH degree when the file is a standard uncompressed 3DGS PLY, and unknown for everything else. Whenever detection reports a known format for a complete file, loading succeeds with that SH degree; whenever loading succeeds, detection had reported the matching format.",
  ["inputs"], "all files the library can write, foreign files, damaged files, missing paths and directories.",
  "Tests cover four files.", [F, R], [("format detector", F), ("reader dispatch", R)], ["detector result against load result and an independent parser"])
p("P09", "Results always reflect the current field values",
  "Whatever has happened to a scene before - in-place edits, replacing whole fields, format or colour conversion, slicing, masking, consolidation, loading from a file or transfer from a tensor - saving, copying, slicing, concatenating, consolidating or transferring it uses the values its fields show at that moment. No earlier state of the data ever reappears.",
  ["histories"], "every sequence of edits and operations on array and tensor containers, ending in any operation that derives new data or a file.",
  "Tests perform single operations on fresh objects; stale internal buffers only show after particular multi-step sequences.",
  [G, T, W, U], [("shared backing buffer kept in step with the fields", G), ("tensor backing buffer", T)], ["fields before each operation against its result"])
p("P10", "Saving does not modify the data being saved",
  "Writing a scene in any format, compressing it to memory or transferring it leaves the caller's object - all fields, declared formats, masks - and the caller's own arrays bit-for-bit unchanged, so the program can go on using the same values after saving. Saving twice produces identical files.",
  ["inputs", "configurations"], "all save entry points, both container kinds and plain arrays, every declared format, with success or failure of the write.",
  "No test compares the caller's data before and after a save.", [W, G, T], [("conversion to file format before writing", W)], ["snapshots of caller data around each save"])
p("P11", "Declared format always matches the stored numbers",
  "At every moment the format a scene declares (log or linear scales, logit or linear opacities, SH or RGB colour, SH degree) describes the numbers it holds: converting updates both together, converting scales or opacities to a format already declared leaves them unchanged, and loading, slicing, copying, combining, masking and transferring keep the declaration with the data. Data in different declared formats is never silently combined.",
  ["histories"], "every sequence of conversions, slices, copies, combinations, transfers and saves on both container kinds, including mixed declarations (only scales or only opacities linear).",
  "Tests check single conversions and mostly only flags.", [G, T, W], [("format dictionary updates", G), ("tensor format updates", T)], ["declared format and values after each operation against a float64 shadow scene"])
p("P12", "Log/linear conversion is accurate, bounded and invertible",
  "Converting PLY-form data to linear form gives exp(scale) clamped to [1e-4, 100], sigmoid(opacity) in [0, 1] and unit quaternions; converting back gives log and logit with the documented clamps (scale floor 1e-9, opacity limits 1e-4 and 1-1e-4). For values inside those limits the two are inverse to float accuracy, every result is finite for finite input, and positions, colours, SH and masks are untouched.",
  ["inputs"], "all finite float32 scales and opacities (tensors also in float16, bfloat16 and float64, to their own precision), quaternions with components up to 1e18 (zero quaternions, extremes, denormals), any custom clamp parameters, in place or not, any layout. The clamp of the linear form and the quaternion normalisation are those of the array container and functions; the tensor container applies plain exp and sigmoid.",
  "Tests sample moderate random values and a few extremes.", [U, G], [("fused activation kernels", U)], ["results against float64 formulas"])
p("P13", "SH/RGB colour conversion follows the DC formula and inverts",
  "Colour conversion computes rgb = 0.28209479177387814*sh + 0.5 and its inverse for every value, through both the functions and the containers; converting there and back returns the original colour to float accuracy, and only the DC colour and its declaration change.",
  ["inputs", "histories"], "all colours up to 1e37 in magnitude, arrays of any shape, layout or float dtype and scalars, in place or not, array and tensor containers, any conversion sequence.",
  "Tests use a handful of values and contiguous arrays.", [U, G, T], [("colour kernels", U), ("in-place colour conversion", G)], ["results against float64 formulas"])
p("P14", "logit and sigmoid are accurate and stay in range everywhere",
  "The public logit and sigmoid functions return the mathematically correct value to float accuracy for scalars and arrays of any shape, size, layout and numeric dtype, clamp as documented (logit to [eps, 1-eps]), stay within [0, 1] and finite for every finite input without overflow, are monotone, never modify their input, and invert each other inside the clamp range.",
  ["inputs"], "all finite numbers including extremes (float32, float64, integers, booleans), any eps in (0, 0.5), any array shape or layout, integer inputs, empty arrays.",
  "Tests check a few values.", [U], [("scalar and array kernels", U)], ["results against a float64 reference"])
p("P15", "Indexing selects the same Gaussians from every field",
  "Indexing a scene with an integer, slice, boolean mask or index list behaves like numpy indexing applied to every field at once - positions, scales, rotations, opacities, colours, SH, every mask layer - with the same order, duplicates, negative indices and IndexError when out of range, and preserves SH degree, declared format and mask-layer names, for any scene including an empty selection.",
  ["inputs", "histories"], "every integer (Python or numpy), slice (positive steps only for tensors), boolean mask and one-dimensional index list or array valid for the length, and out-of-range ones or masks of the wrong length (refused with IndexError or ValueError), every SH degree, with and without backing buffer, array and tensor containers, repeated nested indexing.",
  "Tests try a few slices and masks, mostly looking at lengths and positions only.", [G, T], [("slice dispatch with and without backing buffer", G)], ["every field against numpy indexing of the same field"])
p("P16", "Copies and out-of-place results are independent",
  "Modifying a copy, clone, boolean- or list-selected subset, concatenation, decompressed scene, newly consolidated scene or the result of an out-of-place conversion - its arrays, masks, mask names or declared format - never changes the source, nor the reverse, while plain slices and re-declared views (with_format) share array memory with their source as documented (but not its layer names or declared format). Out-of-place operations leave their source unchanged and in-place ones return the same object.",
  ["histories"], "every deriving operation on both containers followed by any mutation of either side. Not claimed: make_contiguous (which may return or share the same data), consolidate where it returns the scene itself, CPU transfers (which may share memory), in-place conversion of a plain slice (which may write through to its source).",
  "Tests mutate one field after one copy.", [G, T], [("copy, clone, non-inplace branches", G)], ["snapshots of both sides around every mutation"])
p("P17", "Concatenation equals stacking every field",
  "Combining two or more scenes by +, add, sum or bulk concatenation yields exactly the Gaussians of the parts in order for every field, with length equal to the sum of the lengths, and the same declared format; all ways of combining agree on them. With + and add, parts that have the same mask layers keep them, stacked name by name, a part without any masks counts as all false, and parts with different layers give a result without masks; bulk concatenation carries no masks. Parts with different formats or SH degree are refused with an error rather than merged.",
  ["inputs", "configurations"], "any number of parts (two or more), float32 data of any sizes including empty, every SH degree, mask-layer combination, with and without backing buffers, both containers.",
  "Tests combine two or three scenes with equal layout.", [G, T], [("pairwise and bulk concatenation, mask merging", G)], ["fields of the result against numpy concatenation"])
p("P18", "Mask layers behave as independent named boolean columns",
  "Adding, reading, replacing, removing, combining (and/or, all or some layers) and applying named mask layers always gives what a table of named boolean columns would: names stay attached to their columns, other layers are unaffected, unknown or duplicate names and wrong lengths are refused without changing anything, and applying masks keeps exactly the Gaussians selected, in order, with all fields and layers in step.",
  ["histories"], "every sequence of mask operations mixed with slicing, copying and concatenating, for any number of layers and Gaussians, both containers (a list that names a layer twice may be refused, otherwise the repeat makes no difference).",
  "Tests run short fixed sequences with two or three layers.", [G, T], [("mask layer API and combination kernels", G)], ["masks and names after each step against a dictionary model"])
p("P19", "Layout changes never change values",
  "Consolidating a scene, making it contiguous or choosing any memory layout is invisible in the data: every field, mask, name and declared format has the same value before and after, in place or not, and all later operations give the same results as without it.",
  ["histories", "configurations"], "every SH degree and size, already consolidated or contiguous data, slices and strided views, both containers.",
  "Tests check shapes and flags, and values for SH degree 0 only.", [G, T], [("consolidation and contiguity", G)], ["all fields before and after"])
p("P20", "Transfer between arrays and tensors is lossless",
  "Moving a scene from arrays to tensors and back, changing device or precision or cloning preserves every value (exactly in float32, to the target precision otherwise), order, SH degree, declared format, masks and mask names, and honours the requested dtype, gradient flag and pre-filter mask.",
  ["inputs", "configurations"], "every float32 scene, every SH degree, size including empty, layouts, target dtypes (bfloat16 only between tensors), gradient flags, masks, with and without backing buffer (CPU device).",
  "Tests compare a few fields of random scenes.", [T, G], [("conversion with and without backing buffer", T)], ["fields and metadata on both sides"])
p("P21", "The tensor container does what the array container does",
  "Any sequence of operations offered by both containers - indexing, masks, combination, copies, consolidation, format and colour conversion, export - leaves equal data, masks, names and declared formats in both (up to float rounding, and to the extra clamping and quaternion normalisation that the array container documents for conversion to linear form), and both refuse out-of-range indices, wrong mask lengths, unknown or duplicate layer names and mismatched parts.",
  ["histories"], "every common operation sequence over random scenes on the CPU device.",
  "Each container is tested on its own, never against the other.", [T, G], [("parallel implementations of the same interface", T)], ["state of both containers after each step"])
p("P22", "Tensor compression and decompression match the CPU codec",
  "Tensor-based compression produces a valid compressed PLY with the same chunk bounds and, up to one code step of rounding, the same codes as the CPU encoder, and tensor-based loading returns the same scene as the CPU loader for any compressed file, with compiled kernels on or off.",
  ["inputs", "configurations"], "all scenes and compressed files incl. last partial chunks, degenerate ranges, saturated opacities, every SH degree; compiled and eager modes (CPU device).",
  "Tests compare loosely on a few random scenes.", [C, IO, T], [("vectorised pack/unpack", C)], ["bytes and arrays from both implementations"])
p("P23", "SOG files decode to the encoded scene",
  "Reading a SOG scene yields exactly the values its metadata and textures define: log-mapped positions from the 16-bit texture pair, codebook or range scales and colours, packed unit quaternions, opacities as logits and palette SH, for both published metadata versions. A bundle, a folder and in-memory bytes with the same content give the same scene, which can be saved, sliced and combined like any other.",
  ["inputs", "configurations"], "any texture contents, count (below the texture size), codebooks, ranges, SH bands 0-3, palette sizes, version, container kind.",
  "Tests decode one or two tiny scenes with mocked image decoding.", [S], [("texture decode kernels", S)], ["arrays against a float64 reference decoder"])
p("P24", "Damaged SOG input is refused, never a crash",
  "For any SOG bundle, folder or byte string that is truncated, has missing or wrongly sized images, short codebooks or palettes, inconsistent counts, indexes or malformed metadata, reading raises an ordinary exception or returns a consistent scene; it never reads outside the decoded images or tables, crashes or hangs.",
  ["inputs", "fault_sequences"], "every structural mutation of a valid scene's metadata, tables and images, and arbitrary bytes.",
  "Tests cover a missing file and a few malformed metadata cases.", [S], [("size and index checks before native kernels", S)], ["exceptions and guarded native accesses"])
p("P25", "Concurrent use gives the same results as sequential use",
  "Reading, writing, compressing, decompressing, converting, slicing and combining different scenes (or only reading the same one) from several threads at once gives every caller exactly the result it would get alone, for any number of worker threads inside the kernels and any scheduling. Results are deterministic: repeating an operation gives identical bytes.",
  ["schedules", "configurations"], "all interleavings of public operations on distinct or read-only shared scenes, any kernel thread count from 1 to the maximum.",
  "Tests are single-threaded and never vary the kernel thread count.", [W, R, U, G, C], [("parallel kernels without shared writes, module-level caches", W)], ["per-thread results against sequential results"])
p("P26", "Parallel kernels stay in bounds, race-free and fully initialised",
  "On every well-formed input no native kernel reads or writes outside its arrays, no two iterations of a parallel loop touch the same element with at least one write, and no element of a returned array or written file is left uninitialised or depends on earlier memory contents.",
  ["inputs", "schedules"], "every kernel reachable from the public API, N around chunk and thread-split boundaries, all SH degrees and layouts.",
  "Tests look at results only; out-of-bounds reads, benign-looking races and stale memory usually leave correct-looking results.",
  [W, R, U, G, S], [("index arithmetic in kernels compiled without bounds checks", W)], ["every array access of every kernel, under instrumentation"])
p("P27", "A failed or faulty save is always reported",
  "If a save cannot put every byte of the file on storage - disk full, size limit, unwritable or missing directory, at whatever byte the fault strikes - it raises an error instead of returning normally; whenever a save returns normally the file is complete and loads back. Inputs of inconsistent shape are refused with an error before an existing file is touched.",
  ["fault_sequences", "crash_points"], "every byte offset at which the write may fail, every save entry point and format, every shape inconsistency.",
  "Tests never inject write faults.", [W, C], [("file writing", W), ("shape validation", W)], ["exception or file content after each injected fault"])
p("P28", "No operation leaks files, handles or temporary data",
  "After any load, save, detection or SOG read - successful or failed - no file handle, memory mapping or temporary file or directory created by it remains, only the documented output path is created or changed, inputs are unchanged on disk, and memory use does not grow with repetition.",
  ["histories", "fault_sequences"], "every I/O entry point on good, damaged, missing and unreadable inputs, repeated any number of times.",
  "Tests do not look at handles or the directory around the file.", [R, W, F, S], [("context-managed files", R)], ["open descriptors and directory contents before and after"])
p("P29", "The output path and encoding follow the documented rules",
  "A save writes compressed data exactly when compression is requested or the name ends in .compressed.ply or .ply_compressed, to the given name if it already has such an ending, otherwise to the name with .ply replaced by (or extended with) .compressed.ply, and plain data otherwise (the tensor container's own compressed save writes to exactly the name it is given); the resulting file loads back through automatic detection whatever its name. String and path objects, relative paths and unusual names behave alike.",
  ["inputs", "configurations"], "all file names (dots, spaces, unicode, case, several suffixes), path types, compression flags, both containers.",
  "Tests use one or two names.", [W, T, R], [("suffix handling", W)], ["directory listing and file type after each save"])
p("P30", "Building scenes from arrays declares the right format",
  "Creating a scene from arrays or a dictionary with an explicit format declares exactly that format and stores exactly the given values; automatic detection classifies clearly logarithmic and clearly linear data correctly, and the SH degree always follows the coefficients. Unpacking and rebuilding gives the same scene, and unknown formats, invalid SH degrees or missing fields are refused.",
  ["inputs", "configurations"], "all presets, SH degrees and shapes, dtypes, optional arguments, both containers, clearly log or clearly linear value distributions.",
  "Tests use one data set per preset.", [G, T], [("factory methods and format heuristics", G)], ["declared format and fields of the created scene"])
p("P31", "The CUDA device path matches the CPU path",
  "All tensor operations give the same results on a CUDA device as on the CPU, including asynchronous transfers.",
  ["configurations", "schedules"], "every tensor operation on every CUDA device and stream.",
  "Tests skip without a GPU.", [T, C, IO], [("device transfer", T)], ["values after each operation on a CUDA device"])
p("P32", "Results do not depend on, or change, process-wide state",
  "What an operation returns, writes or refuses is the same bit for bit whatever the state of the process around it: random generators, numpy and torch error, print, default-type, gradient and thread settings, warning filters, logging, working directory, locale, environment, hash seed and interpreter optimisation. In return no operation changes any of that state or prints anything.",
  ["configurations", "histories"], "every public operation under every setting of the interpreter, numpy, torch, numba and the operating system that should be irrelevant to it.",
  "Tests run in one process with default settings and never look at global state.", [W, R, G, T, S, C], [("shape checks that survive -O", W), ("explicit dtypes and devices", C)], ["digests of results and files and a picture of the process state before and after"])
p("P33", "An operation that does not complete changes nothing",
  "When an operation refuses its arguments, or an out-of-place operation, load or save is broken off by an exception at any point (an interrupt, lack of memory), every scene and file it was given is exactly as before, including masks, layer names, declared format and shared storage; nothing stays open, the caller gets the exception, and the same call afterwards gives the normal result.",
  ["fault_sequences", "crash_points", "histories"], "every invalid argument of every operation; an exception at every executed line of out-of-place operations, loads and saves; inconsistent or read-only fields.",
  "Tests check that an error is raised, not what is left behind, and inject no exception.", [G, T, U, R, W, C], [("validation before mutation", G), ("restoring state around in-place kernels", U)], ["all scenes, arrays, files and descriptors before and after"])
p("P34", "Loads give the current file's content, owned by the result",
  "Every load returns the content the file has at that moment, however often, in whatever order and under whatever name it was loaded or rewritten before; the result is writable float32 data of its own that no later change to the file, to another load of it or to the loaded scene itself can affect, and changing it does not affect the file. A save replaces the whole file, also a longer one or the one the scene was loaded from.",
  ["histories", "inputs"], "every sequence of saves, rewrites, replacements, renames, links and deletions of files interleaved with every kind of load, and edits of the results.",
  "Tests load each file once, right after writing it.", [R, W, F, S, C, T], [("header and data read from the same file", R), ("results own their data", R)], ["values of every load against the last content written, and of earlier loads afterwards"])
p("P35", "Gradients flow exactly through tensor scenes",
  "When fields of a tensor scene track gradients, every result of a tensor operation - indexing, masks, combination, copies, consolidation, format, colour and precision conversion, rebuilding, unpacking - is a differentiable function of them: back-propagation gives each source element the derivative of the mathematical operation, summed over all its uses, none lost, doubled or misplaced. Scenes transferred with gradient tracking can be given to an optimiser, and each step shows in everything read, derived or saved afterwards.",
  ["inputs", "histories"], "every chain of tensor operations, all or some fields tracked, repeated and empty selections, any SH degree and size.",
  "Tests only look at the tracking flag of one result.", [T], [("autograd through slicing, concatenation and conversion", T)], ["gradients of the source tensors after back-propagation", "values read after an optimiser step"])
p("P36", "Optional packages are optional",
  "Without PyTorch, without imagecodecs, with a PyTorch that fails on import or a kernel compiler that is missing or fails at any call - down to an installation with nothing but NumPy and Numba - every operation that does not need the missing part gives exactly the results of the full installation, and every feature that does need it raises ImportError naming the package to install. Importing the package alone loads neither PyTorch nor imagecodecs.",
  ["configurations", "fault_sequences"], "every public operation under every combination of absent, broken or failing optional packages.",
  "Tests run with everything installed or skip.", ["src/gsply/__init__.py", W, S, C], [("lazy imports", "src/gsply/__init__.py"), ("eager fallback", C)], ["digests of results and the kind and text of refusals in restricted interpreters"])
p("P37", "Cost is proportional to the work, views and queries are free",
  "For every operation on a valid scene, time and extra memory grow at most in proportion to the Gaussians, concatenated parts, mask layers or selected rows involved, whatever their values and layout. Queries, single Gaussians, plain slices, re-declared views, unpacking and conversion to an already declared form cost neither time nor memory in proportion to the scene, and a slice is a view.",
  ["inputs", "configurations"], "every public operation, any number of Gaussians, parts, mask layers and selected rows, arrays with and without a shared base, both containers.",
  "Tests use small scenes and never measure; a quadratic loop or a hidden copy gives correct results.", [G, T, U, R, W, C], [("views for slices, single allocation for concatenation", G)], ["executed library lines, CPU time and peak traced memory at sizes a factor 8 apart"])
p("P38", "Tensor scenes work in any floating precision",
  "A tensor scene in float16, bfloat16, float32 or float64 keeps that precision in every field and in its backing buffer through every operation: selection, masks, combination, copies, consolidation and rebuilding reproduce the values bit for bit, format and colour conversions are exact up to that precision (half precision loses none of the documented clamps, float64 is not reduced to float32), casting rounds each value once, a second summand takes the precision of the first, and saving or converting to arrays passes on exactly the values held.",
  ["inputs", "histories", "configurations"], "every chain of tensor operations, every mixture of the four precisions, any SH degree, with and without backing buffer. bfloat16 has no NumPy counterpart, so that its conversion to arrays may be refused with TypeError; a transfer from arrays may pass through float32.",
  "Tests check one dtype flag after one cast, in float32 otherwise.", [T, C, IO], [("conversions in working precision", T), ("buffers of the scene's own dtype", T)], ["dtype and values of every field after each step against a float64 model"])
if __name__ == "__main__":
    for x in P: print(json.dumps(x))
