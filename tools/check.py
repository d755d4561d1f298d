#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import sys, os, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.path.insert(0, os.path.join(os.path.dirname(here), 'checks'))
import vlib, vbuild

def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    c = vlib.Check(pid)
    try:
        mod.run(c)
        return c.finish()
    except (vlib.ModelError, vbuild.BuildError) as e:
        print('ERROR of the check itself:', e, flush=True)
        import shutil; shutil.rmtree(c.scratch, ignore_errors=True)
        if c.violations: return 1
        return 2
    except Exception:
        traceback.print_exc()
        import shutil; shutil.rmtree(c.scratch, ignore_errors=True)
        if c.violations: return 1
        return 2
sys.exit(main())
