#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import lib                                                              # noqa: E402


def table():
    import checks_calc as cc
    import checks_misc as cm
    import checks_store as cs
    import checks_conc as cx
    import checks_edit as ce
    import checks_say as cy
    t = {'C01': cc.c01, 'C02': cc.c02, 'C03': cc.c03, 'C04': cc.c04, 'C05': cc.c05, 'C06': cc.c06,
         'C07': cc.c07, 'C10': cc.c10, 'C11': cc.c11, 'C22': cm.c22,
         'C08': cs.c08, 'C09': cs.c09, 'C15': cs.c15, 'C16': cs.c16, 'C17': cs.c17, 'C20': cs.c20, 'C23': cs.c23,
         'C18': cx.c18, 'C19': cx.c19, 'C26': cx.c26, 'C27': cx.c27,
         'C24': cy.c24,
         'C12': ce.c12, 'C13': ce.c13, 'C14': ce.c14, 'C21': ce.c21, 'C25': ce.c25}
    return t


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        lib.build_tools()
        lib.build_binary()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else lib.TIER
    check = lib.Check(prop, tier)
    error = None
    try:
        lib.build_tools()
        binary = lib.build_binary()
        # run a copy, so that a build going on elsewhere does not change what is being checked
        import shutil
        copy = os.path.join(check.scratch, 'bcalc')
        shutil.copy2(binary, copy)
        table()[prop](check, copy)
    except lib.ToolError as ex:
        error = str(ex)
    except Exception as ex:                                             # noqa: BLE001
        import traceback
        error = '%s\n%s' % (ex, traceback.format_exc())
    return check.finish(error)


if __name__ == '__main__':
    sys.exit(main())
