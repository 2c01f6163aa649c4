"""C01: an exact maximum is never exceeded when the program runs."""
import realcheck


def main():
    return realcheck.main("C01", "random programs (traits, function tables, recursion, formatting, allocation, hand-written assembly, naked functions, "
                          "library arithmetic) built by the real toolchain at several optimisation levels; every program is executed several times with "
                          "different inputs in a Thumb interpreter; the deepest stack below every function entry is compared with the maximum and the "
                          "local usage the tool gives for that image; non-trivial: a distinct pair of functions, one of which calls the other in an execution",
                          ["the interpreter executes Thumb code as the architecture defines it", "programs have no two functions that LLVM merges although their types differ, "
                           "except the one of the known finding"])
