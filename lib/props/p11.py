from vt import life, lang
from vt.pbt import Suite

TITLE = "Every object is destroyed exactly once, when its last reference goes"
RULE = ("One case is a generated program over objects of a class hierarchy with destructors, their fields, arrays, class variables, weak references, methods, scopes, loops and exceptions, "
        "compared with a model that counts references. Non-trivial: distinct program in which at least 4 objects are freed (or an exception is caught).")
META = dict(
    statement="An object lives exactly as long as something refers to it: local variables to the end of their scope, arguments, return values, fields, array elements, class variables. When the last reference goes - by assignment, scope exit, return, loop control, or an exception that unwinds the frame - its destructor (the one of its class or of the nearest super class) runs exactly once at that point and its memory is returned; never earlier, never again. A weak reference does not keep an object alive, reads as undef once it is gone, turns strong by unweaken or by assignment; isweak tells. A destructor cannot change the exception variable or the return value, and an exception in it becomes a warning. Only unreachable cycles keep memory. The same holds in precompiled code.",
    over=["programs", "histories"], quant="all programs that build, change, pass, weaken and drop references",
    why="lifetime errors need particular combinations of scopes, aliasing, weak references and unwinding that fixed tests do not contain",
    files=["lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Document/Language/GarbageCollection.pm"],
    mech=[("reference counts, destructors, back references", "lib/SPVM/Builder/src/spvm_api.c"), ("scopes: mortal stack pushes and leave_scope", "lib/SPVM/Builder/src/spvm_opcode_builder.c")],
    observe=["order of destructor calls relative to the statements", "isweak and defined-ness of weak fields", "number of live memory blocks after the call and at the end"],
    technique="model-based property testing of generated histories against a reference-counting model",
    note="Generated programs with a reference-counting model; destructor calls between two other observations are compared as a multiset, so the order within one scope exit is not checked.")

SUITES = [
    Suite("vm", life.case(0, 2, "vm"), 12000, 200000, chunk=200),
    Suite("exceptions", life.case(1, 2, "vm"), 8000, 200000, chunk=200),
    Suite("precompile", life.case(1, 2, "pre"), 350, 8000, chunk=10),
    Suite("asan", life.case(1, 2, "vm", "asan"), 1200, 30000, variants=("asan",), chunk=50),
    Suite("programs", lang.programs(dict(objects=True, arrays=True, strings=True, boxes=True, calls=True, evals=True, stmts=8)), 400, 10000, chunk=50),
]
