#!/usr/bin/env python3
"""run.py ID: decide one property from /repo's current source."""
import importlib.util
import os
import resource
import sys
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
sys.setrecursionlimit(20000)
import vlib


def main():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))     # an analysis that runs away fails alone
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        spec = importlib.util.spec_from_file_location(pid, os.path.join(HERE, pid + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        c.part(m.check, c)
        return c.finish(getattr(m, 'MINOBS', 1))
    except vlib.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception as e:
        traceback.print_exception(e)
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 4
    finally:
        c.cleanup()


sys.exit(main())
