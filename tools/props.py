#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = list(obs)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Modifying one handle never changes another handle sharing its data",
  "Value objects (string, array, bit array, bit set, path, gradient, image, pattern, font, font feature/variation settings) share their data after a weak copy. A modifying call made through one handle writes into existing shared data only if that handle is its only owner and the data is mutable; otherwise it first switches to its own copy, so no other handle, and no built-in default object, ever observes a change.",
  ["histories", "inputs"], "Every modifying API call, on a handle in every storage state (inline, sole owner, shared, read-only external, built-in default), on every path through the call.",
  "A test checks a few calls on a few shared handles; the guarantee quantifies over every modifying call on every path, including rarely taken ones (growth, shrink, out-of-memory, aliased arguments).",
  ["blend2d/core/object_p.h", "blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/bitset.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/image.cpp", "blend2d/core/pattern.cpp", "blend2d/core/font.cpp", "blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp"],
  [("reference count equals one before in-place modification", "blend2d/core/object_p.h is_impl_mutable / is_instance_mutable")],
  [("ref_count", "number of handles sharing an impl; 1 means sole mutable owner", "blend2d/core/object_p.h BLObjectImplHeader")],
  ["contents read through any other handle"])

prop("C02", "save() followed by restore() puts the rendering context state back",
  "After save(), any state-changing calls on the rendering context (styles, style swap, alpha, composition operator, fill rule, hints, approximation and stroke options, transforms, clipping) and restore(), every property the context exposes has the value it had before save().",
  ["histories", "inputs"], "Every state-changing context function between save and restore, every argument value, every prior state.",
  "The tests draw with save/restore in a few orders and compare two contexts driven the same way, so a value both fail to restore is invisible; the set of (setter, prior state) pairs is far larger than what they draw.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/rastercontext_p.h", "blend2d/core/context.cpp"],
  [("copy-on-first-change of weak state groups", "blend2d/raster/rastercontext.cpp on_before_*_change, restore_impl, save_core_state, restore_core_state")],
  [("context_flags weak bits", "which groups of the current state are still shared with the saved state", "blend2d/raster/rasterdefs_p.h / rastercontext_p.h ContextFlags")],
  ["BLContext getters"])

prop("C03", "Allocation failure is detected and reported, never dereferenced",
  "When any memory allocation made on behalf of an API call fails, no code path uses the missing block, and the call either reports an error or completes without needing the block.",
  ["fault_sequences"], "Every allocation site reachable from the API, failing on any path.",
  "No test makes the allocator fail.",
  ["blend2d/core/object.cpp", "blend2d/support/arenaallocator.cpp", "blend2d/support/scopedallocator.cpp", "blend2d/support/zeroallocator.cpp", "blend2d/core/pixelconverter.cpp", "blend2d/core/glyphbuffer.cpp", "blend2d/compression/deflateencoder.cpp", "blend2d/opentype/otkern.cpp", "blend2d/threading/thread.cpp", "blend2d/threading/threadpool.cpp"],
  [("null check after every allocation, error propagated as BL_ERROR_OUT_OF_MEMORY", "BL_PROPAGATE in blend2d/core/api-internal_p.h")])

prop("C04", "A call that fails leaks nothing it acquired",
  "On every path on which a call returns, each memory block, file descriptor, mapping and object the call itself acquired has been released, returned or handed to an object that owns it; an owner never forgets a block by replacing it, and destroying an object gives back what it holds.",
  ["fault_sequences", "inputs"], "Every failing path of every function that acquires a resource.",
  "Error paths are barely exercised by the tests and nothing counts leaks.",
  ["blend2d/core/filesystem.cpp", "blend2d/threading/threadpool.cpp", "blend2d/threading/thread.cpp", "blend2d/core/pixelconverter.cpp", "blend2d/support/zeroallocator.cpp"],
  [("RAII holders and explicit cleanup on error returns", "throughout blend2d/core, blend2d/support, blend2d/threading")])

prop("C05", "A modifying call that reports an error leaves the object unchanged",
  "When a setter or other modifying call on a value object or on the rendering context's state returns an error, everything observable through the getters of the object the call is made on (its first argument) is exactly as it was before the call.",
  ["inputs", "fault_sequences"], "Every modifying call and every path to an error result.",
  "Tests assert the error code of a few calls, not that the state is untouched on every error path.",
  ["blend2d/core/gradient.cpp", "blend2d/core/path.cpp", "blend2d/core/string.cpp", "blend2d/core/array.cpp", "blend2d/core/pattern.cpp", "blend2d/raster/rastercontext.cpp"],
  [("validate and allocate first, commit last", "all bl_*_set_* / bl_*_assign_* functions")])

prop("C06", "Out-of-range enumeration and index arguments are rejected before use",
  "An API function that takes an enumeration value or an index used to select an entry of a table or field array never uses an out-of-range value to address memory: it returns an error first.",
  ["inputs"], "Every argument value of every public function.",
  "Tests pass valid values and a handful of invalid ones.",
  ["blend2d/core/context.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/core/gradient.cpp", "blend2d/core/matrix.cpp", "blend2d/core/path.cpp", "blend2d/core/image.cpp"],
  [("range check against BL_*_MAX_VALUE", "public entry points")])

prop("C07", "Read-only calls never modify the objects they are given",
  "An API function that takes an object by const pointer (getters, comparisons, searches, exports) never writes to that object's handle or shared data, except reference counts and internally synchronised caches.",
  ["inputs", "schedules"], "Every API parameter declared const, on every path.",
  "C++ const is shallow: the compiler lets a const handle's shared data be written, and tests do not compare bytes before and after every query.",
  ["blend2d/core/array.cpp", "blend2d/core/path.cpp", "blend2d/core/bitset.cpp", "blend2d/core/gradient.cpp", "blend2d/core/font.cpp", "blend2d/core/image.cpp"],
  [("const API parameters", "blend2d/core/*.h")])

prop("C08", "Simplifying a composition operator never changes the result of compositing",
  "For each composition operator, destination format and source format, the operator, formats and solid source the renderer substitutes (or its decision to draw nothing) produce, for every source colour, destination colour and coverage the formats can hold, the same destination as the operator the user asked for.",
  ["inputs", "configurations"], "Every (operator, destination format, source format) triple; all pixel values of these formats.",
  "Rendering tests compare two renderers that share the same simplification table, so an error in it cancels out.",
  ["blend2d/core/compopinfo.cpp", "blend2d/core/compopsimplifyimpl_p.h", "blend2d/core/compop_p.h"],
  [("compile-time simplification table", "blend2d/core/compopsimplifyimpl_p.h")])

prop("C09", "Constant tables equal the mathematical or standard definition they encode",
  "Every lookup table whose contents are fixed by a published standard or a formula (CRC-32, deflate lengths/distances/code order, JPEG zigzag, PNG interlace geometry, UTF properties, alpha division reciprocals, hex/bit tables, format descriptors) holds exactly the values of that definition, in all entries.",
  ["inputs"], "Every entry of every such table.",
  "A wrong entry is reached only by an input that selects it; the tests select a small part.",
  ["blend2d/compression/deflatedefs.cpp", "blend2d/compression/checksum.cpp", "blend2d/codec/jpegcodec.cpp", "blend2d/tables/tables.cpp", "blend2d/unicode/unicode.cpp", "blend2d/core/format.cpp"],
  [("static tables", "the listed files")])

prop("C10", "No unsynchronised mutable global state",
  "After library initialisation, no API call writes process-wide state (global and static variables) except through atomic operations or under a lock that every access to that state holds, so calls on distinct objects from any number of threads never race.",
  ["schedules", "histories"], "Every function reachable from the API after initialisation, every global variable.",
  "Races need particular schedules; the tests mostly run one thread.",
  ["blend2d/core/runtime.cpp", "blend2d/threading/uniqueidgenerator.cpp", "blend2d/core/fontmanager.cpp", "blend2d/pipeline"],
  [("globals written only during bl_runtime_init / shutdown", "blend2d/core/runtime.cpp")])

prop("C11", "Reference counts change atomically and the last release sees all writes",
  "Retaining and releasing shared object data from any threads are atomic read-modify-write operations; the release that drops the last reference, and only that one, destroys the data, and its decrement is ordered so that it observes all earlier accesses by other owners. Every handle accounts for exactly one reference at any time.",
  ["schedules"], "Every place that changes a reference count of shared data, all interleavings.",
  "Interleavings of two releases are not explored by tests.",
  ["blend2d/core/object_p.h", "blend2d/threading/atomic_p.h", "blend2d/core/gradient_p.h"],
  [("fetch_add relaxed / fetch_sub acquire-release", "blend2d/threading/atomic_p.h")])

prop("C12", "Every lock taken is released on every path and waits recheck their condition",
  "Each mutex or read/write lock acquired inside the library is released exactly once on every path out of the acquiring function, is never re-acquired while held, and each wait on a condition variable is made with its mutex held and inside a loop that rechecks the condition. Data a lock protects is accessed only while that lock is held.",
  ["schedules", "inputs"], "Every function that acquires a lock or waits, every path.",
  "A leaked lock deadlocks only the next caller on a rare path.",
  ["blend2d/threading/mutex_p.h", "blend2d/threading/conditionvariable_p.h", "blend2d/threading/thread.cpp", "blend2d/threading/threadpool.cpp", "blend2d/raster/workersynchronization.cpp", "blend2d/core/fontmanager.cpp"],
  [("RAII guards", "blend2d/threading/mutex_p.h")])

prop("C13", "CPU-specific code runs only after the matching CPU feature was detected",
  "Code compiled for an instruction-set extension beyond the baseline is reachable from baseline code only through a runtime check of that extension (or of one that includes it).",
  ["configurations"], "Every call edge and function-pointer assignment from baseline code into extension code.",
  "The tests run on one CPU, which supports the extensions.",
  ["blend2d/core/runtime.cpp", "blend2d/core/pixelconverter.cpp", "blend2d/compression/checksum.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/core/matrix.cpp", "blend2d/pixelops/funcs.cpp", "blend2d/compression/deflatedecoder.cpp", "blend2d/codec/pngops.cpp"],
  [("bl_runtime_has_* checks around installation of optimised functions", "blend2d/core/runtime_p.h")])

prop("C14", "Recursion on untrusted data is bounded",
  "Processing a font, image or compressed stream never nests deeper than a fixed bound, whatever the bytes say: no function processing them recurses without counting its depth against a constant limit, and every explicit stack (nested glyph components, charstring subroutine calls and operands) refuses to grow beyond the room it has.",
  ["inputs"], "Every cycle of the call graph, every explicit stack.",
  "Needs a crafted self-referencing file.",
  ["blend2d/opentype/otcff.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otlayout.cpp", "blend2d/core/var.cpp"],
  [("explicit nesting limits", "blend2d/opentype/otcff.cpp, otglyf.cpp, otlayout.cpp")])

prop("C15", "The library never terminates the process or writes to its output streams",
  "No API call other than the documented diagnostic ones (runtime messages, deliberate failure) aborts or exits the process, raises a signal, or prints to standard output or standard error, whatever its arguments; errors are only reported through result codes. Detecting that an internal counter underflowed is the one accepted exception.",
  ["inputs", "histories"], "Every function reachable from the API in a release build.",
  "Absence of a reachable call is not something a test can show.",
  ["blend2d/core/runtime.cpp", "blend2d/core"],
  [("result codes; assertion failure only in debug builds", "blend2d/core/runtime.cpp bl_runtime_assertion_failure")])

prop("C16", "Results do not depend on time, environment or randomness",
  "Apart from explicitly seeded random generators, process/CPU queries and unique identifiers, no API call reads the clock, the environment, the locale or a random source, so equal inputs give equal results in every run.",
  ["histories", "configurations"], "Every function reachable from the API.",
  "A dependence shows only in another environment.",
  ["blend2d/core", "blend2d/raster", "blend2d/opentype", "blend2d/codec"],
  [("no calls to ambient-state functions", "whole library")])

prop("C17", "Every object type and backend slot has a complete function table",
  "Every virtual function table published by the library has all its slots filled before an object using it can be reached, each slot with a function of the right signature, and every object type the library can create is destroyed by its own destructor.",
  ["programs", "histories"], "Every table, every slot, every object type.",
  "A missing slot crashes only when that operation is used on that object kind.",
  ["blend2d/core/object.cpp", "blend2d/core/context.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/core/fontface.cpp", "blend2d/core/imagecodec.cpp"],
  [("virt tables filled in *_rt_init", "blend2d/core/*.cpp")])

prop("C18", "Every declared API function exists and C++ wrappers forward to the right one",
  "Every function the public C headers declare is defined and exported with the declared signature, and each inline C++ method of a public class forwards its own object and its arguments, in order, to the C function of the same operation.",
  ["programs"], "Every exported declaration and every wrapper method.",
  "Tests call a fraction of the API.",
  ["blend2d/core/*.h", "blend2d/core/api-globals.cpp"],
  [("BL_API declarations and inline wrappers", "blend2d/core/*.h")])

prop("C19", "Cached values derived from an object are dropped when the object changes",
  "After any modification of a gradient's stops, a path's geometry or a bit set's contents, no query or rendering call can use lookup tables, path information or a cardinality computed from the earlier contents; and a multithreaded rendering context never hands its workers state captured from settings that have changed since.",
  ["histories"], "Every modifying function, on every path.",
  "Needs query, modify, query sequences for each modifying function.",
  ["blend2d/core/gradient.cpp", "blend2d/core/path.cpp", "blend2d/raster/rastercontext.cpp"],
  [("invalidate_lut_cache / path flags dirty", "blend2d/core/gradient.cpp, blend2d/core/path.cpp"), ("kSharedState flags", "blend2d/raster/rastercontext.cpp")])

prop("C20", "Operating-system failures become errors, never success",
  "A file operation whose underlying system call fails returns an error result (interrupted calls may be retried), and never reports success or a larger byte count than was transferred; closing and resetting release the descriptor exactly once, and a transfer repeated for the rest continues where the previous part ended.",
  ["fault_sequences"], "Every system call failing on any path.",
  "Tests do not make system calls fail.",
  ["blend2d/core/filesystem.cpp"],
  [("errno mapping", "blend2d/core/filesystem.cpp")])

prop("C21", "What a setter stored is what the matching getter returns",
  "For every property with a setter and a getter (rendering context state, gradient, pattern, stroke and approximation options, font), reading it after a successful set returns the value set, normalised only by the documented clamping, and setting one property leaves the others as they were.",
  ["inputs", "histories"], "Every property, every valid value, every prior state.",
  "Tests read back a few properties with one value each.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/core/gradient.cpp", "blend2d/core/pattern.cpp"],
  [("setters in the listed files", "blend2d/raster/rastercontext.cpp")])

prop("C22", "Error results are propagated, not dropped",
  "When an internal step of an API call returns an error, the call does not report success: the error is returned, or replaced by another error, or the step is one whose failure provably does not affect the result.",
  ["fault_sequences", "inputs"], "Every call site of a result-returning function.",
  "Error paths are rarely taken in tests.",
  ["blend2d/core", "blend2d/codec", "blend2d/opentype", "blend2d/raster"],
  [("BL_PROPAGATE", "blend2d/core/api-internal_p.h")])

prop("C23", "Decoders and font readers never read or write outside their buffers",
  "Decoding any byte sequence as an image, a compressed stream or a font never accesses memory outside the input and the buffers allocated for it.",
  ["inputs"], "All byte sequences.",
  "The tests decode valid files and a few corrupted ones.",
  ["blend2d/codec", "blend2d/compression", "blend2d/opentype"],
  [("bounds checks before each access", "blend2d/opentype/otdefs_p.h and codec sources")])

prop("C24", "Library initialisation reaches every subsystem in dependency order",
  "Initialising the library runs every subsystem's initialiser exactly once and before anything that depends on it, and no subsystem reads state another initialiser has not yet set up.",
  ["histories", "configurations"], "Every initialiser and every global it reads.",
  "Tests run after one successful initialisation in one order.",
  ["blend2d/core/runtime.cpp"],
  [("ordered list of *_rt_init calls", "blend2d/core/runtime.cpp bl_runtime_init")])

prop("C25", "Multithreaded rendering produces the same pixels as single-threaded",
  "For any sequence of render calls the pixels produced with N worker threads equal those produced without.",
  ["schedules", "inputs"], "Any call sequence, any thread count, any schedule.",
  "Tests compare a sample of random scenes under the schedules that happened.",
  ["blend2d/raster"], [("banded asynchronous rendering", "blend2d/raster/workerproc.cpp")])

prop("C26", "Optimised and reference implementations of an operation agree",
  "Every CPU-specific implementation returns, for every input, what the portable implementation returns.",
  ["inputs", "configurations"], "All inputs of every optimised function.",
  "Only sampled inputs are compared.",
  ["blend2d/pixelops", "blend2d/core", "blend2d/compression", "blend2d/codec"], [("dispatch tables", "blend2d/core/runtime.cpp")])

prop("C27", "Encoding followed by decoding returns the original image",
  "An image written with a lossless codec and read back has identical size, format class and pixels, and deflate output decodes to the bytes compressed.",
  ["inputs"], "All images and byte strings.", "Tests round-trip a sample.",
  ["blend2d/codec", "blend2d/compression"], [("encoder/decoder pairs", "blend2d/codec")])

prop("C28", "Geometry and rasterisation results are accurate",
  "Flattening, stroking, hit-testing, bounding boxes and area coverage deviate from the exact geometric result by no more than the documented tolerance, and never hang or overflow.",
  ["inputs"], "All finite and non-finite coordinates.", "Tests sample shapes.",
  ["blend2d/geometry", "blend2d/core/path.cpp", "blend2d/core/pathstroke.cpp", "blend2d/raster"], [("numeric algorithms", "blend2d/geometry")])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
