from vt import lang
from vt.pbt import Suite
TITLE = "Precompiled methods behave exactly like interpreted ones"
RULE = ("One case is a generated program with precompile methods, translated to C by the tree under test, compiled by gcc with the standard flags and executed, its trace, result, exception "
        "and memory compared with the program's reference meaning (which the VM is held to as well). Non-trivial: at least 8 operators, 4 executed steps and one trace value.")
META = dict(
    statement="A method with the precompile attribute has the same observable behaviour as the same method run by the virtual machine: the same values, output, evaluation order, exceptions with the same messages and stack traces, and the same object lifetimes. The C source generated for any class that compiles is accepted by the C compiler, and methods of both kinds can call each other freely.",
    over=["programs", "inputs"], quant="all programs and inputs; every operation the language can compile to",
    why="the tests run some methods in both modes with fixed inputs; the two implementations must agree on every program",
    files=["lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Builder/src/spvm_vm.c"],
    mech=[("C source generator, one template per opcode", "lib/SPVM/Builder/src/spvm_precompile.c"), ("macros shared by both engines", "lib/SPVM/Builder/include/spvm_implement.h")],
    observe=["trace, result, exception, output and memory blocks of generated programs in both engines"],
    technique="differential property-based testing of generated programs (VM, precompiled code, reference evaluator)",
    note="Generated well-typed programs over nearly all language features, sampled; gcc is trusted; the reference evaluator decides which side is wrong.")
MIX = dict(evals=True, loops=True, depth=3)
NUMS = dict(strings=False, objects=False, depth=5, stmts=8)
OBJS = dict(floats=False, depth=2, stmts=9)
SUITES = [
    Suite("programs", lang.programs(precompile=True), 500, 20000, chunk=25),
    Suite("numeric", lang.programs(NUMS, precompile=True), 150, 6000, chunk=10),
    Suite("objects", lang.programs(OBJS, precompile=True), 250, 8000, chunk=15),
    Suite("vm", lang.programs(), 600, 20000, chunk=50),
]
