"""C07: a program does what the language standard says.

Random well-typed programs over the whole statement and expression language are built with the real compiler and run;
the reference interpretation each was generated with predicts every line of output and any panic.  A directed suite
covers constructs the generator does not compose."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from progcheck import *


def check(c):
    run_programs(c, "a", c.scale(110, 1500))
    run_programs(c, "b", c.scale(60, 800), opt="-O0", depth=2, stmts=10, funcs=7)
    run_programs(c, "c", c.scale(28, 500), variant="asan", timeout=60)


if __name__ == "__main__":
    main(check, "C07", "random programs: every output line and panic agrees with the reference interpretation")
