"""The registry: property id -> how it is decided."""
from . import ir, tool

CHECKS = {}


def check(prop, rule, explanation, assumptions=()):
    def deco(f):
        CHECKS[prop] = {"run": f, "rule": rule, "explanation": explanation, "assumptions": list(assumptions)}
        return f
    return deco


IR_ASSUME = ["The IR is clang's for x86-64 with the flags CMake uses for a release build without JIT; the JIT back end is not built here and not analysed."]


@check("C15", "No call edge from an API entry point reaches a function that ends the process or writes to the standard streams; a deliberate failure call is accepted only behind a test that an atomic counter underflowed.",
       "Reachability over the linked call graph (indirect calls resolved by slot, else by signature) from every exported function except the diagnostic and init/shutdown ones.", IR_ASSUME)
def c15(tier):
    return tool.run("sinks-term")


@check("C16", "No call edge from an API entry point reaches a clock, environment, locale or random source; a clock read is accepted only as the deadline of a timed wait.",
       "Reachability over the linked call graph from every exported function except init/shutdown; constant format strings with floating-point conversions handed to the C library are reported too.", IR_ASSUME)
def c16(tier):
    return tool.run("sinks-input")


@check("C10", "Every non-atomic write to a global variable outside initialisation happens with a lock held exclusively that every other overlapping access also holds.",
       "All loads, stores and by-reference uses of mutable globals in code reachable from the API; interprocedural must-hold locksets; parameter write summaries.", IR_ASSUME)
def c10(tier):
    return tool.run("globals")


OBJ_ASSUME = IR_ASSUME + [
    "A pointer argument refers to a valid object of its declared type; distinct pointer arguments refer to distinct handles; element counts are below 2^60 and size <= capacity.",
    "Font table processing, codecs and the rasteriser are not entered from the value object functions.",
]

CTX_ASSUME = IR_ASSUME + [
    "The context starts in an arbitrary state in which each style is a solid colour or an object holding one live reference, flag bits without a name are clear, and the context's own memory is not reachable through the arguments of a call.",
    "Numeric results (matrix products, floor, fixed point conversion) are uninterpreted values; allocation may fail anywhere an allocator is called.",
]


@check("C02", "After a successful save(), any setter (and any pair of setters that change a common field), and restore(), every field of the context state is provably the value it had before save(), or a value computed from it only.",
       "Path-sensitive symbolic dataflow through the public entry points, the function table the library installs, and the setters; the context image is unknown, so nested saves and every earlier history are included. Both rendering modes.", CTX_ASSUME)
def c02(tier):
    jobs = [("ctx-save", 0, -1, 0), ("ctx-save", 0, -1, 1)] + [("ctx-save", 3, i, 0) for i in range(4)] + [("ctx-save", 3, i, 1) for i in range(4)]
    if tier == "thorough":
        jobs = [("ctx-save", 1, i, 0) for i in range(4)] + jobs
    return tool.run_many(jobs)


@check("C21", "On every path on which a setter of the rendering context reports success, the getter of the same property returns the value passed, and no field belonging to another property changes.",
       "Each setter of the raster context followed by its getter, interpreted path by path over an unknown context state; a table maps each setter to the state it owns.", CTX_ASSUME)
def c21(tier):
    return tool.run("ctx-set", "C21")


@check("C19", "When a modifying call changes data a cache is computed from (gradient stops: lookup tables and stop summary; path geometry: bounds and flags; bit set segments: cardinality; context settings: state captured for worker threads), the cache is dropped or marked out of date on the same path; a path query returns cached bounds only where the out-of-date flag was tested.",
       "Every exported function of the value objects, and each setter of the asynchronous raster context alone and followed by restore(), interpreted path by path from an unknown state.", CTX_ASSUME + OBJ_ASSUME[1:])
def c19(tier):
    return tool.run_many([("ctx-set", "C19"), ("obj", "C19")])


@check("C05", "On every path on which a modifying function reports an error, the object it is called on (each field of the context state; for value objects the handle, the shared data and its buffers) keeps its contents.",
       "Each setter of the raster context and every exported function of the value objects interpreted path by path over an unknown state; each path whose result is certainly not BL_SUCCESS is compared with the state before the call.", CTX_ASSUME + OBJ_ASSUME[1:] + [
           "A value object may have switched to another representation of the same contents before the error (shrink, setting a font feature or variation, replacing a gradient stop, string formatting): there only the contents reachable before are compared.",
           "Paths whose result is the unknown result of another call are not compared (counted in the evidence)."])
def c05(tier):
    return tool.run_many([("ctx-set", "C05"), ("obj", "C05")])


@check("C01", "Every plain store into data reached through a handle argument happens on a path on which that data's reference count is known to be 1 (or equal to its base value, the last reference); no store ever reaches a built-in default object.",
       "Every exported function of the value objects is interpreted path by path over unknown arguments; each store is attributed to the argument and fields its address was loaded from.", OBJ_ASSUME + [
           "In bl_bit_set_assign_words and bl_bit_set_add_words the capacity test that follows the ownership test depends on the words passed; there a store is accepted on any path that examined the reference count.",
           "A path's cached bounds and flags and a font face's character coverage are caches: writing them is not a change (C07 covers them)."])
def c01(tier):
    return tool.run("obj", "C01")


@check("C07", "No plain store reaches memory designated by a const pointer argument, or data reached through it; atomic accesses and the 16 bytes claimed by a compare-and-swap are accepted.",
       "Every exported function except the rendering context's is interpreted path by path over unknown arguments; each store is attributed to the argument and fields its address was loaded from.", OBJ_ASSUME)
def c07(tier):
    return tool.run("obj", "C07")


@check("C12", "On every path of every function each lock taken is released exactly once and never taken again while held (callees included); a condition variable is waited on with its mutex held, inside a loop whose exit condition is re-read; a field that is written under a lock of the same object is never accessed without it.",
       "Typestate analysis of the pthread mutex, read/write lock and condition variable calls over every function's control flow, path-sensitive in the conditions lock operations depend on, with callee summaries; locks are identified by the expression of their address.", IR_ASSUME + [
           "Constructors, destructors, initialisers and functions called only from them run while no other thread has the object.",
           "A timed wait only bounds a delay and needs no recheck."])
def c12(tier):
    return tool.run("locks")


@check("C11", "On every path of every value object function the change of each reference count equals the change in the number of handles that refer to the data, counts change only by atomic read-modify-write, and data is destroyed only where the last reference is known to be dropped; every decrement whose result is tested is ordered acquire-release and tested for exactly the last reference.",
       "Symbolic count/handle balance on the exits of each exported function of the value objects (the objects reached through arguments and newly created ones); an IR rule over every atomic decrement and every write to a reference counter in the library; every path from the creation of a local handle to where it is copied or handed on for reading, on code with nothing inlined.", OBJ_ASSUME + [
           "Balances are not decided for data whose handle cell was joined from several values or written through a variable offset, nor for items of an array reached in a loop (counted updates there are still checked to be atomic).",
           "Render fetch data belongs to one rendering context and is counted by its owner only."])
def c11(tier):
    return tool.run_many([("obj", "C11"), ("refs",), ("apart:uninit",)])


@check("C17", "Every slot of every function table is filled on every path of its initialiser (or by its constant initialiser), never with the function another slot of the table is named for, nor with an instance for another mode; the dispatch on object types reaches the destructor of exactly that type.",
       "Tables are found by debug information (structures made of function pointers only, inside any global); fills by a post-dominance analysis over stores through arguments and globals.", IR_ASSUME)
def c17(tier):
    return tool.run("virts")


@check("C24", "Each *_rt_init function is called exactly once, unconditionally, and only where the usage counter was zero before; no step of bl_runtime_init() reads a global that a later step sets up; no pointer that initialisation is responsible for stays null; shutdown happens only for the last user.",
       "Dominance and post-dominance over bl_runtime_init() and bl_runtime_shutdown(), transitive read and write sets (global, byte range) of every step.", IR_ASSUME + ["Accesses through pointers stored in memory are not part of the read and write sets."])
def c24(tier):
    return tool.run("init")


@check("C18", "Every function the public headers declare is defined and exported with as many parameters; each wrapper method (and each C function that forwards to the rendering context's function table) passes its object and every one of its arguments to the operation of its own name, in order, with the enumerator and flag its name and argument types call for, and returns the result.",
       "Rules over clang's syntax tree of all inline methods in the public headers and of the bl_context_* functions; names of parameters, operations, enumerators and types are compared.", ["Parameter names in declarations say what the parameter is for."])
def c18(tier):
    res, recs = tool.run_ast("wrappers", ir.REPO + "/blend2d/core/context.cpp", "-include", ir.REPO + "/blend2d/blend2d.h")
    exported = {r["name"]: r for r in tool.run_raw("exports") if r["type"] == "export"}
    decls = [r for r in recs if r["type"] == "decl"]
    res.counts["declared functions"] = len(decls)
    if len(decls) < 500:
        raise ir.AnalysisBroken("only %d declared functions found" % len(decls))
    for d in decls:
        if d["name"] not in exported:
            res.violations.append({"key": "undefined:" + d["name"], "loc": d["loc"], "msg": d["name"] + "() is declared but not defined or not exported", "path": ""})
        elif not d["vis"]:
            res.violations.append({"key": "hidden:" + d["name"], "loc": d["loc"], "msg": d["name"] + "() is declared without BL_API", "path": ""})
    return res


ERR_ASSUME = IR_ASSUME + ["A step that fails returns a non-zero BLResult (or the null pointer, or the operating system's -1); clean-up calls (destroy, reset, release, close, shrink) have no failure a caller could act on."]


@check("C22", "The result of every step that can fail is used, and on every path that follows its failure the function returns an error (or completes by an explicitly reviewed alternative).",
       "Every call to a BLResult function (and to a function pointer or virtual slot of that type) in the library is an obligation; control flow is followed from the call under the assumption that it failed.", ERR_ASSUME)
def c22(tier):
    return tool.run_many([("errs", "C22"), ("apart:errs", "C22")])


@check("C03", "Every block an allocator may fail to deliver is tested before it is used, and the failure does not end in success.",
       "Every call to malloc, realloc and each library function that hands out their result; control flow is followed from the call under the assumption that the result is null: no load, store or call may use it.", ERR_ASSUME)
def c03(tier):
    return tool.run_many([("errs", "C03"), ("apart:errs", "C03")])


@check("C20", "Every system call whose failure matters is tested, and on every path that follows its failure the function returns an error or tries again.",
       "Every call of an operating system function that can fail; control flow is followed from the call under the assumption that it failed.", ERR_ASSUME)
def c20(tier):
    return tool.run("errs", "C20")


@check("C04", "On every path to a return, each memory block, file descriptor and mapping a function acquired has been stored, returned, released or handed to a function that takes it over.",
       "Every call that acquires one is followed along every path under the assumption that it succeeded.", ERR_ASSUME)
def c04(tier):
    return tool.run("errs", "C04")


@check("C13", "Every use (call, stored or passed function pointer) in baseline code of a function compiled for an instruction set extension lies behind a test of the detected CPU features that implies this extension.",
       "Every reference from a function with baseline target features to one with wider target features; the conditions of dominating branches, selects and joins are evaluated to the extension they imply, through predicate functions and, for internal helpers, through all callers.", IR_ASSUME + ["The feature bits are cumulative, as the detection sets them.", "Inline functions emitted by several units are not part of the rule."])
def c13(tier):
    return tool.run("isa")


@check("C14", "No function can be reached again from itself unless each level passes on a depth that is compared with a constant (or the cycle is one of the reviewed ones, which follow what the caller nested); each counter of an explicit stack, when it reaches the size of the array it indexes, leads neither to an access nor to a further increase.",
       "Strongly connected components of the call graph from every API function (calls through pointers within one font, codec or compression file included); every local array of the font, codec and compression code indexed by a counter that goes up and down in a loop, followed along every path from each increment that reaches the array's size.", IR_ASSUME + ["Values nested by the caller (arrays of arrays) are as deep as the caller made them.", "Calls through pointers between different files are not part of cycles."])
def c14(tier):
    return tool.run_many([("recur",), ("apart:recur",)])
