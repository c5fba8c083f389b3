"""Notes for DESIGN.md: oracle, what is left out and why.  gen_docs puts them into the section of the property."""
N = {
"P01": dict(oracle="`lib/vt/sem.py`, an exact Python model of the numeric semantics (two's complement, IEEE binary32/64, floored `%`), plus whole generated programs run by a reference interpreter (`lib/vt/prog.py`).",
    out="Shift counts not below the width and float to integer conversions out of range (undefined in C and in the documents)."),
"P02": dict(oracle="The generator builds a tree, prints it with the fewest parentheses the documented precedence allows, and evaluates the tree itself; every operand traces its number, so grouping, order and number of evaluations are all compared.",
    out=""),
"P03": dict(oracle="Three-way: the reference interpreter, the virtual machine and the precompiled machine code of the same program.",
    out=""),
"P04": dict(oracle="Invariant over arbitrary texts: the request ends within the time limit without crash, sanitizer report, abort or leak; errors are non-empty and located; after a success the class can be run through envinit. Mutations are structural (tokens, slices, splices of a corpus taken from the documents and test classes' text inside the harness) and byte-level.",
    out="Texts longer than 64 kB."),
"P06": dict(oracle="`lib/vt/types.py`: a model of the documented assignment and cast relation on a random universe of classes, interfaces, multi-numeric types and array types; for each pair and each place of assignment the compiler must accept or reject as the model says, and accepted conversions must give the model's value.",
    out="Pairs for which the documents and the implementation differ in an open way (see Divergences)."),
"P07": dict(oracle="The same model applied to the dynamic type of the object.", out=""),
"P08": dict(oracle="Literals are generated from the grammar together with their value; malformed ones are generated by breaking one rule; layout (comments, POD, white space, line ends) is inserted between tokens and must not change the result; positions of errors are predicted by the place where a fault was planted.", out="`\\8`, `\\9` and `$x -5` (undocumented)."),
"P09": dict(oracle="A Python interpreter of the generated statements on the same input tape.", out="Replacing the array during a for-each; two `my` of one name in one block (rejected by the compiler)."),
"P10": dict(oracle="Reference interpreter with exact `$@`, stack traces with class, method and line, and error IDs; `deep` throws through up to 1000 frames.", out="Traces beyond 100 frames (cut, as implemented)."),
"P11": dict(oracle="Reference interpreter with reference counts: every DESTROY is traced and must occur at the same place in the trace as in the model; no memory block may remain.", out="The order in which the variables of one scope are released (compared as a set)."),
"P12": dict(oracle="Python bytes model of every operator and a stateful model of string variables with aliases and read-only flags.", out=""),
"P13": dict(oracle="Python model of arrays (length, elements, read-only strings inside, errors).", out="Array sizes that exhaust memory."),
"P14": dict(oracle="Model of class hierarchies: fields, methods, overriding, SUPER, interfaces, has_interface, isa, accessors.", out="Structural interfaces and the reversed has_interface (Divergences)."),
"P15": dict(oracle="Model of calls: conversion of every argument, defaults, references, results; recursion at 1000 +- 3 frames.", out=""),
"P16": dict(oracle="Model with cells for references to locals.", out="References that outlive their variable (impossible by the type rules)."),
"P18": dict(oracle="Python re-implementation of each documented function of Fn.", out=""),
"P19": dict(oracle="Stateful models of every container; each operation's result and the whole content compared.", out="Exception safety of typed List prototypes (undocumented)."),
"P20": dict(oracle="Python models of the functions of Array, Sort, and others.", out=""),
"P21": dict(oracle="Own formatter (Python `%` on exact values, with the documented differences) and own packer.", out="Precision with integers, width with precision in %s, zero-padded infinities, `.` without digits, odd hex counts (undocumented)."),
"P22": dict(oracle="Model of Perl and SPVM values on both sides of each conversion; round trips.", out="Magical scalars as arguments; encoding of non-ASCII exception texts."),
"P23": dict(oracle="Model of the object graph with owners in Perl and in SPVM.", out=""),
"P24": dict(oracle="Model of objects, scopes of mortals, fields, weak references and class variables; one native method (`driver/vtapi.c`) interprets the generated history.",
    out="Duties of the caller: new_object of a non-class type (assertion), free_stack with open scopes, storing without a type check, copy of object arrays (assertion). Not called: new_env, print functions and standard streams, set_no_free, get_stack_tmp_buffer, new_stack_trace, check_bootstrap_method, get_bool_object_value."),
"P32": dict(oracle="A table of the documented compile-time requirements: each generated text satisfies all or breaks exactly one, and the compiler must accept or reject accordingly.", out="Requirements that the implementation is documentedly or traditionally lenient about (see Divergences)."),
}
