"""C02: every call a program executes is an edge of its call graph."""
import realcheck


def main():
    return realcheck.main("C02", "random programs (traits, function tables, recursion, formatting, allocation, hand-written assembly, naked functions, "
                          "library arithmetic) built by the real toolchain at several optimisation levels; every program is executed several times with "
                          "different inputs, Thumb in an interpreter and x86_64 by single-stepping the processor; every call and tail call is looked up in the "
                          "graph printed for that image; non-trivial: a distinct pair of functions, one of which calls the other in an execution",
                          ["the interpreter executes Thumb code as the architecture defines it", "on x86_64 the programs use no operation that LLVM lowers to "
                           "a call of a library function that is no call in the LLVM IR (a documented limit of the tool)"])
