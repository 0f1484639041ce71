#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.
Exit 0: held on everything explored.  Exit 1, with VIOLATION lines: broken.
Exit 2: the check itself failed."""
import os, sys, traceback
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, 'lib')
sys.dont_write_bytecode = True
import common


def suites():
    import codecchecks
    import rpc
    import glue
    import gen
    import examples
    s = {p: codecchecks.codec_check for p in codecchecks.KINDS}
    s.update(C11=rpc.c11, C12=rpc.c12, C13=glue.c13, C14=rpc.c14, C15=rpc.c15, C16=rpc.c16, C08=gen.c08, C09=glue.c09, C17=glue.c17, C18=examples.c18)
    return s


def main():
    prop = sys.argv[1]
    run = suites().get(prop)
    if run is None:
        print('no check for', prop, file=sys.stderr)
        return 2
    ctx = common.Ctx(prop)
    try:
        try:
            run(ctx)
        except common.Enough:
            pass
        except Exception:
            if not ctx.violations:
                raise
            traceback.print_exc()     # what was found before stands
        return ctx.finish()
    except common.CheckError as e:
        print('check error:', e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
