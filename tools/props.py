TODO = "check not built yet"

prop("C01", "Resampling is the separable normalised convolution with the named filter",
 "For every sample format (8-bit, 16-bit at a bit depth, f32, f16), channel count and one of the 48 convolution filters, each output sample of a resize equals, within the arithmetic precision of that format and workload strategy, the vertical then horizontal convolution of the source with the filter named, sampled at pixel centres, widened by the scale when shrinking, normalised to sum one, and clamped to the range of the format. This holds for every source and destination size, including single rows and columns, and on every instruction set the library selects at run time.",
 ["inputs", "configurations"], "every sample format, channel count, bit depth, strategy, filter, source size, destination size, pixel content and CPU feature level; explored for all axis pairs up to the stated bound with impulse images (one call exposes the whole weight matrix) and dense textures",
 "unit tests resize a handful of flat or noisy images with one filter and compare single pixels loosely; they never look at the weight of each tap, at filters other than the one sampled, at the SIMD tails of each width, or at CPUs other than the one they run on",
 ["src/scaler.rs", "src/sampler.rs", "src/math"] + PLANES + DISP + SIMD + ["src/fixed_point_horizontal.rs", "src/fixed_point_vertical.rs", "src/floating_point_horizontal.rs", "src/floating_point_vertical.rs"],
 [("weight generation", "src/scaler.rs Scaler::generate_weights"), ("two passes", "src/scaler.rs Scaler::generic_resize"), ("kernel selection", "HorizontalConvolutionPass / VerticalConvolutionPass implementations"), ("row and column kernels", "src/sse, src/avx2, src/avx512, src/*_point_*.rs")],
 [("filter weights", "start, length and values of the taps of each output position", "src/filter_weights.rs")], ["the destination store after resize_*"],
 technique=ENUM + "an independent f64 reference model of all filters, on every CPU feature level",
 note="All source/destination axis pairs, filters, formats and CPU levels inside the bounds are executed; each output sample is compared with the reference model. Trusts the reference kernels (written from the published definitions, f64) and that feature levels forced through std's detection cache behave like the real CPU. Known finding: 16-bit fixed point weights above one are clamped.")

prop("C02", "Every instruction set gives the same image",
 "For the same call, the image produced on a CPU offering any combination of vector extensions equals the image produced by the portable code, up to the rounding of the arithmetic in use, and the call returns the same success or error. This includes alpha premultiplied resizing, packed 10-bit images, nearest resizing and same size copies (the latter two bit for bit).",
 ["configurations", "inputs"], "every combination of the CPU features the library asks for that is closed under implication, times every entry point, format, channel count, bit depth, strategy and threading policy, on all small sizes and a list of sizes that reach each vector width and tail",
 "tests run on one CPU, so of the many kernels for one operation they execute one; CI machines decide which",
 ["src/cpu_features.rs"] + PLANES + DISP + SIMD + ["src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs", "src/alpha_handle_f16.rs"],
 [("run time dispatch", "is_x86_feature_detected! in every *_u8.rs, *_u16.rs, *_f32.rs, alpha_handle_*.rs, dispatch_group_*.rs")], [], ["the destination store after resize_*"],
 technique=ENUM + "the portable code path of the same binary (differential), over all implication-closed CPU feature combinations",
 note="Every entry point except the colour space scalers (their conversions belong to the dependency colorutils-rs), all 34 combinations of CPU features that this machine can run, compared sample by sample with the run without any feature; nearest and same-size results bit for bit. Trusts that features forced through std's detection cache behave like the real CPU.")

prop("C03", "Only instructions the CPU reports are executed",
 "When the CPU does not report a vector extension, no call of the library executes an instruction of that extension. So no call dies of an illegal instruction on any CPU, whichever combination of extensions it offers.",
 ["configurations", "inputs"], "every implication-closed combination of the CPU features the library asks for, times every entry point, format, channel count, bit depth and strategy; every instruction executed by the library during the call is observed",
 "a test machine that has the extension executes the instruction without complaint, so no test can notice that the dispatch condition does not cover the kernel's requirements",
 ["src/cpu_features.rs"] + PLANES + DISP + SIMD, [("dispatch conditions", "is_x86_feature_detected! in front of each #[target_feature] function"), ("const generic feature switches", "src/avx2/*, src/sse/* functions taking HAS_DOT / FMA flags")], [], ["instruction stream of the calling thread"],
 technique='explicit enumeration of calls on the real code under every combination of CPU features: every instruction of the executable that the combination does not cover is replaced by a trap, so that no execution of one can go unnoticed',
 note='34 combinations of features, every entry point, format, depth and strategy, every width up to 44 (140)')

prop("C04", "The image does not depend on threads or scheduling",
 "A resize gives bit for bit the same image with every threading policy (single, any fixed number of threads, adaptive) and under every order in which its parallel parts are executed by the pool. With the single policy (the default) everything runs on the calling thread and no thread is created; with a fixed policy of n no more than n threads take part.",
 ["schedules", "configurations", "inputs"], "every threading policy, all execution orders of the parallel parts of a call up to the stated bound, every entry point, format and channel count",
 "the tests use the single policy or one run of one schedule",
 ["src/threading_policy.rs", "src/nearest_sampler.rs", "src/convolution.rs"] + DISP + ["src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs", "src/alpha_handle_f16.rs", "src/avx2", "src/avx512", "src/sse"],
 [("pool creation", "src/threading_policy.rs ThreadingPolicy::get_pool"), ("row parallel loops", "pool.install + par_chunks_exact_mut in dispatch_group_*, alpha handlers, nearest_sampler")], [], ["destination store", "threads created", "thread executing each row"],
 technique='stateless exploration of schedules of the real code: pic-scale and rayon are built on a replacement of rayon-core whose scheduler takes every decision (which branch runs next, preemption at heap operations) from a depth first search with replay, and one preemption at every machine instruction of every first branch (single stepping, a forked copy per instruction), and the memory accesses of both branches of every fork: where they share memory that one of them writes, all schedules of two switches at such accesses; every image is compared bit for bit with the single policy, pools, forks and threads with what the policy allows',
 note='all orders of parallel loops of up to 5 branches, deviation bounded beyond; policies over a grid')

prop("C05", "A call touches nothing outside the images it is given",
 "A resize never reads outside the source image's buffer nor writes outside the destination image's buffer or its own temporary memory, and never modifies the source. This holds for every size, stride, format and instruction set.",
 ["inputs", "configurations"], "every size up to the bound and a list of longer rows, every entry point, format, channel count, stride and CPU feature level, with each buffer (caller's and temporary) ending directly at an inaccessible page",
 "tests allocate with the ordinary allocator, where a vector load a few bytes past a row goes unnoticed",
 SIMD + PLANES + DISP + ["src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/sse/ar30_utils.rs"], [("pointer arithmetic in kernels", "src/sse, src/avx2, src/avx512 (unsafe)"), ("unchecked indexing", "get_unchecked in src/*_point_*.rs, src/dispatch_group_*.rs")], [], ["page protection faults", "canaries around the buffers", "source buffer content"],
 technique=ENUM + 'inaccessible memory directly beside every buffer (source, destination, every heap temporary), a read-only source and canaries',
 note="Every entry point, CPU level and listed size with buffers that end (and, for part of the calls, start) exactly at inaccessible memory; any access outside faults and is attributed to the call. Known finding: the dependency's sigmoidal SSE conversion reads past the source.")

prop("C06", "Row strides and padding never matter",
 "The image produced is bit for bit the same whatever the row strides of source and destination are (0, which stands for packed rows in image stores, included) and whatever the source's row padding contains. The destination's row padding is left as it was.",
 ["inputs", "configurations"], "every combination of source and destination stride from a set covering zero, packed and several paddings, times every entry point, format, channel count, size up to the bound, axis combination and CPU feature level",
 "all existing tests use packed rows",
 ["src/image_store.rs", "src/resize_ar30.rs", "src/nearest_sampler.rs", "src/colors"] + PLANES + DISP, [("stride() of stores", "src/image_store.rs"), ("row iteration", "chunks_exact(stride) in dispatch_group_*.rs"), ("colour conversion strides", "src/colors/*.rs")], [], ["destination buffer including padding"],
 technique=ENUM + "the packed run of the same call (differential), over all pairs of strides and padding contents",
 note='Every entry point, CPU level and stride pair inside the bounds is executed and compared bit for bit with the packed run; destination padding is compared with what it held, the source with a copy.')

prop("C07", "Every call either succeeds or reports the right error, and never panics",
 "Every resize call returns: success exactly when both images have non-zero sizes, buffers of stride times height elements, strides of zero or at least a row, sizes whose element count fits in memory and (16-bit only) a destination bit depth between 1 and 16; otherwise an error, and in that case the destination is left untouched. The error names a violated requirement, and no call panics, aborts or fails to return.",
 ["inputs", "configurations"], "every combination of source/destination width, height (zero, small, huge), stride (zero, short, exact, long), buffer length (short, exact, long) and bit depth (0..=17), filter class, for every entry point",
 "tests only ever make valid calls",
 ["src/scaler.rs", "src/scaler_f16.rs", "src/image_store.rs", "src/resize_ar30.rs", "src/support.rs", "src/pic_scale_error.rs", "src/colors"], [("validate()", "src/image_store.rs"), ("overflow check", "src/support.rs check_image_size_overflow"), ("order of checks", "src/scaler.rs generic_resize, generic_resize_with_alpha; src/resize_ar30.rs; src/colors/*.rs")], [], ["returned value", "destination buffer"],
 technique=ENUM + "a model of the call contract (which errors apply to which arguments)",
 note='Every combination of sizes, strides, lengths and depths inside the bounds is called, panics caught, crashes and hangs of the process attributed to the call. Any error that applies is accepted. Known finding: two channel images through the colour space scalers.')

prop("C08", "A resize to the same size is an exact copy",
 "When source and destination have the same width and height, the destination pixels are bit for bit the source pixels, for every filter, format, channel count, premultiply flag, strategy and threading policy, including the colour space scalers and packed 10-bit formats.",
 ["inputs", "configurations"], "every entry point, format, filter, option and size up to the bound, with pixel contents that include all sample values, transparent pixels, infinities and not-a-number payloads",
 "no test resizes to the same size", ["src/scaler.rs", "src/resize_ar30.rs", "src/image_store.rs", "src/colors"], [("early copy", "src/scaler.rs generic_resize, generic_resize_with_alpha; src/resize_ar30.rs; src/colors/*.rs")], [], ["destination buffer"],
 technique=ENUM + "the source bits",
 note='Every entry point, filter, CPU level and listed size, bit patterns compared including NaN payloads and padding.')

prop("C09", "A flat image stays flat at the same value",
 "Resizing an image whose pixels all have the same value gives an image whose pixels all have that value: exactly for integer formats and nearest resizing as long as the rounding of 16-bit fixed point weights cannot add up to half a unit (8-bit: below 128 taps, 10-bit: below 32, 12-bit: below 8 taps per pass; beyond that by that sum), within one unit per pass for the 8-bit speed strategy, and within the precision of the arithmetic for floating point, for every filter and size. The colour of fully transparent pixels and colour space conversion losses are outside this.",
 ["inputs", "configurations"], "every value of the 8-bit range (a dense set elsewhere), every filter, format, entry point and CPU feature level, sizes up to the bound",
 "tests check one grey value for a few sizes", ["src/scaler.rs", "src/filter_weights.rs"] + DISP + SIMD, [("normalisation of the weights", "src/scaler.rs generate_weights"), ("fixed point conversion", "src/filter_weights.rs")], [], ["destination buffer"],
 technique=ENUM + "the flat value",
 note='Every entry point but the colour space scalers (C16), all filters and CPU levels; the allowance per pass is what rounding the fixed point weights can add up to, zero for most cases.')

prop("C11", "Channels do not leak into each other",
 "Without alpha premultiplication, a channel of the output depends only on the same channel of the source: changing the other channels arbitrarily leaves it bit for bit unchanged. Resizing a multi-channel image gives in each channel the image that the single-channel resize of that channel gives, up to rounding.",
 ["inputs", "configurations"], "every format, channel count, depth, strategy, CPU feature level and size up to the bound, every channel, with other channels at opposite extremes",
 "tests use grey or constant-per-channel images", PLANES + SIMD, [("de-interleaving in row kernels", "src/sse, src/avx2, src/avx512")], [], ["destination buffer"],
 technique=ENUM + "the same call with other channels changed (bit for bit) and the single channel call",
 note='Every multi-channel format, CPU level and listed size; each channel against three variants of the others.')

prop("C12", "Alpha aware resizing equals convolving premultiplied colour",
 "With premultiplication requested and an alpha that varies, the result is that of multiplying colour by alpha, resizing, and dividing by the resized alpha: alpha itself equals the plain resize of the alpha channel, and colour equals the quotient within the rounding of the two conversions. Where the alpha is the same everywhere the integer and f32 results equal those of the plain resize, fully transparent pixels never contribute colour to visible ones, and the source is never changed.",
 ["inputs", "configurations"], "every RGBA format, bit depth, strategy, filter class, axis combination, CPU feature level and size up to the bound, alpha patterns including zero, one, maximum and isolated pixels, all 65536 pairs of 8-bit colour and alpha",
 "one test with one image checks a single pixel", ["src/scaler.rs", "src/alpha_check.rs", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs", "src/alpha_handle_f16.rs", "src/sse", "src/avx2", "src/avx512"], [("alpha presence check", "src/alpha_check.rs, src/*/check_alpha.rs"), ("premultiply and unpremultiply", "src/alpha_handle_*.rs, src/*/alpha_*.rs"), ("which pass they wrap", "src/scaler.rs forward_resize_*_with_alpha")], [], ["destination buffer"],
 technique=ENUM + 'the product, resized by the plain resize, and exact quotient',
 note='Every RGBA format with premultiplication on every CPU level: eight alpha patterns on all small sizes, one odd alpha at every position of every width, all pairs of colour and alpha up to 10 bits.')

prop("C13", "Nearest resizing copies the closest source pixel",
 "With the nearest filter every output pixel is a bit for bit copy of one whole source pixel, in all channels, namely one whose centre is closest to the output pixel's centre mapped into the source. This holds for every format including packed 10-bit, strides, threading policies and alpha options.",
 ["inputs", "configurations"], "every pair of source and destination axis length up to the bound (and long axes), every entry point that supports the filter, format and channel count",
 "one test looks at one pixel of a halved image", ["src/nearest_sampler.rs", "src/scaler.rs", "src/resize_ar30.rs"], [("index computation", "src/nearest_sampler.rs resize_nearest")], [], ["destination buffer"],
 technique=ENUM + "exact integer arithmetic of the closest centre",
 note='Every axis pair up to the bound plus long axes, every format, both axes with strides and threads; ties and positions within single precision of a tie accept both neighbours.')

prop("C14", "A result depends on the call alone",
 "The image a call produces is a function of its arguments and configuration alone: what the destination held before, which calls the same scaler, thread or process made before, and which run at the same time make no difference. A scaler reconfigured to some settings behaves like a new one with those settings.",
 ["histories", "inputs"], "every sequence of operations (create, reconfigure, resize of different formats and sizes, failing calls) up to the depth bound, compared with the same call made first in a fresh process",
 "each test makes one call on a new scaler with a zeroed destination", ["src/scaler.rs", "src/scaler_f16.rs", "src/colors", "src/threading_policy.rs"], [("no state besides configuration", "src/scaler.rs Scaler"), ("setters", "Scaling::set_threading_policy, Scaler::set_workload_strategy")], [("scaler configuration", "filter, threading policy, workload strategy", "src/scaler.rs")], ["destination buffer"],
 technique='explicit-state exploration of call histories on the real code: the process is forked at every state so that every sequence over the alphabet of calls continues from exactly the state its prefix left, and each result is compared bit for bit with the same call in a fresh process; one call is also interleaved into another at its heap operations and, where the library has writable statics or atomic instructions (both looked for in the binary and in every stepped instruction), at each instruction; memory contents (destination, temporaries) are enumerated',
 note='depth 2 over the full alphabet, depth 3 over a core alphabet and over calls of one scaler object')

prop("C15", "Packed 10-bit images resize like the channels they hold",
 "Resizing an image packed as 2-10-10-10 bits (either field order, either byte order) gives in its three colour fields, within rounding, what resizing each of them as a 10-bit image of its own gives; alpha, which is documented as not scaled, comes out opaque unless whole pixels are copied (nearest filter, same size). Both field orders and both byte orders of the same picture give exactly the same picture.",
 ["inputs", "configurations"], "both packings and byte orders, every filter, size up to the bound, stride, CPU feature level; contents with every channel at its extremes independently",
 "no test touches the packed formats", ["src/ar30.rs", "src/resize_ar30.rs", "src/dispatch_group_ar30.rs", "src/fixed_point_horizontal_ar30.rs", "src/fixed_point_vertical_ar30.rs", "src/sse"], [("packing and byte order", "src/ar30.rs"), ("dispatch", "src/dispatch_group_ar30.rs")], [], ["destination buffer"],
 technique=ENUM + 'an independent f64 reference model, the 10-bit plane resize, and the other packings',
 note='All axis pairs up to the bound with all filters and an impulse at every position of every field, all listed two-axis sizes, all 1024 field values, on every CPU level; the four packings compared bit for bit.')

prop("C16", "Colour space scalers resize in the colour space they name",
 "Each colour space scaler (Lab, Luv, LCh, linear, linear approximated, XYZ, Oklab, Jzazbz, sigmoidal) gives within rounding the image that converting to that colour space (with the conversions of colorutils-rs on that CPU, and the transfer function and display luminance the scaler was given), resizing there with the same filter and options, and converting back gives; alpha is resized as it is. Flat colours keep their value within one unit (except in the approximated linear scaler). Threads and strides do not matter.",
 ["inputs", "configurations"], "all nine scalers, three and four channels, premultiplication on and off, filters, sizes up to the bound, colours on a grid of the RGB cube",
 "no test touches the colour space scalers", ["src/colors"], [("conversion before and after", "src/colors/*.rs")], [], ["destination buffer"],
 technique=ENUM + "the composition of conversion, resize in the colour space and conversion back, and f64 definitions of four spaces",
 note="All nine scalers on every CPU level, all listed sizes with four stride patterns, all axis pairs up to the bound, all transfer functions, colours of a grid of the RGB cube. The conversions themselves are those of the dependency. Known finding: black pixels from the dependency's Jzazbz SSE code.")

prop("C17", "Image stores describe and copy exactly the pixels they hold",
 "A store is created exactly when the buffer has width times height times channels elements (otherwise an error naming the mismatch) and then reports that size and those pixels; copies and conversions between store kinds keep size, stride, bit depth and pixels and never share memory with the original. Copying into another store writes the rows and columns both have in common and nothing else.",
 ["inputs", "histories"], "every width, height, channel count, stride and buffer length up to the bound, overflowing sizes, and all sequences of store operations up to the depth bound",
 "tests create a few valid stores", ["src/image_store.rs"], [("constructors", "src/image_store.rs ImageStore::new/borrow/from_slice/alloc, ImageStoreMut::*"), ("copies", "src/image_store.rs copied, copied_to_mut, to_immutable")], [("store", "buffer, width, height, stride, bit depth", "src/image_store.rs")], ["store fields and buffer"],
 technique="exhaustive bounded enumeration of constructor calls and operation sequences on the real stores against an explicit model of a store",
 note='All operation sequences up to the depth, all geometries and buffer lengths inside the bounds.')

prop("C18", "The one-call scaling interface equals the configured scaler",
 "Scaling a store with given options gives bit for bit what a scaler created with that filter, a single or adaptive threading policy and the default strategy gives, including the returned error, for every format and channel count. Setting an option changes what it names and nothing else.",
 ["inputs", "configurations"], "all options, filters, formats and channel counts; sizes up to the bound",
 "no test uses the one-call interface", ["src/scaler.rs", "src/scaler_f16.rs"], [("forwarding", "src/scaler.rs impl ImageStoreScaling")], [], ["destination buffer"],
 technique=ENUM + "the configured scaler (differential)",
 note='Every format, depth (valid and invalid), filter and listed size (zero included), compared bit for bit and error for error.')

prop("C19", "Thread counts stay within the policy",
 "The single policy always uses one thread, a fixed policy the number given (at least one), and the adaptive policy between one and the available parallelism, never fewer for a larger image. No image size makes the computation overflow or panic.",
 ["inputs", "configurations"], "every policy, thread number and image size from a dense grid up to the largest representable sizes",
 "no test computes a thread count", ["src/threading_policy.rs"], [("thread_count", "src/threading_policy.rs")], [], ["ThreadingPolicy::thread_count", "threads created by a resize"],
 technique="exhaustive enumeration of policies and a grid of sizes against the policy contract; threads counted at pthread_create",
 note='All policies and sizes of the grid; pools are really built and their threads counted.')

prop("C20", "Integer results saturate and floats stay finite",
 "Every integer sample of a result lies within the range of its bit depth, and a value that the exact convolution would place outside is the nearest end of the range instead of wrapping around. Finite floating point images (up to 1e30 in f32, 4000 in f16) never produce infinities or not-a-number.",
 ["inputs", "configurations"], "every integer format and bit depth 1..=16, filters with negative lobes, extreme checkerboards and impulses, every CPU feature level, sizes up to the bound",
 "tests use mid-range values where nothing overshoots", PLANES + SIMD + ["src/saturate_narrow.rs", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs"], [("saturating narrowing", "src/saturate_narrow.rs and the packus/min in kernels")], [], ["destination buffer"],
 technique=ENUM + "the saturated f64 reference convolution",
 note='Every bit depth 1 to 16, all formats and CPU levels, seven extreme pictures per size, filters with overshoot.')

