#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property from /repo's current sources."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')


BUDGET = float(os.environ.get('SA_BUDGET') or (7200 if 'thorough' in (os.environ.get('VERIF_TIER'), sys.argv[-1]) else 720))


def run(pid):
    from sa import ctx
    m = importlib.import_module('checks.' + pid.lower())
    c = ctx.Ctx(pid)
    expl = ''
    try:
        expl = m.run(c)
    except ctx.OutOfTime:
        c.undecided('time', 'every obligation is reached', '', 'not finished after %.0f s' % BUDGET)
    return c.finish(explanation=expl or (m.__doc__ or '').strip())


if __name__ == '__main__':
    if '--tier' in sys.argv:
        os.environ['VERIF_TIER'] = sys.argv[sys.argv.index('--tier') + 1]
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = run(sys.argv[1])
        except Exception:
            import traceback
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join(BUDGET)
    if t.is_alive():
        # end the analysis and report what it found so far
        import ctypes
        from sa import ctx
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(ctx.OutOfTime))
        t.join(60)
    sys.stdout.flush()
    os._exit(rc[0])
