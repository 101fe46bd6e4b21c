#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: run one check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
    except vlib.MachineryError as e:
        print(f'ERROR: {prop}: {e}')
        if ctx.viol:
            return ctx.finish(getattr(mod, 'LEVEL', 'model_checking'))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get('VF_KEEP'):
            import shutil
            shutil.rmtree(ctx.work, ignore_errors=True)
    return ctx.finish(getattr(mod, 'LEVEL', 'model_checking'))
rc = main()
sys.exit(rc)
