#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's current tree.  Exit 0 held, 1 violated, 2 no answer."""
import sys, traceback
sys.dont_write_bytecode = True
from vlib import core, lexer, lr, macros, calc, shared, forms
mods = [lexer, lr, macros, calc, shared, forms]


def main():
    pid = sys.argv[1]
    for m in mods:
        f = getattr(m, pid, None)
        if f:
            try:
                return f()
            except core.ToolError as e:
                print("ERROR", e)
                return 2
            except Exception:
                traceback.print_exc()
                return 2
    print("unknown property", pid)
    return 2


sys.exit(main())
