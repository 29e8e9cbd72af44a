import importlib
import json
import logging
import os
import sys
import traceback
import warnings


def main():
    warnings.simplefilter('ignore')
    logging.root.addHandler(logging.NullHandler())
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    only = None
    if '--replay' in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed, tier, only = v['seed'], v['tier'], v['case']
    from . import core
    ctx = core.Ctx(prop, tier, seed, only)
    try:
        import dolfyn
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s: dolfyn does not import' % prop)
        return 2
    if not dolfyn.__file__.startswith(core.REPO + '/'):
        print('INCONCLUSIVE: dolfyn imported from', dolfyn.__file__)
        return 2
    mod = importlib.import_module('vdolfyn.checks.' + prop.lower())
    from . import defaults
    import contextlib
    try:
        with open(os.devnull, 'w') as nul, contextlib.redirect_stdout(nul):
            mod.run(ctx)
            if prop in defaults.PROPS:
                defaults.run(ctx, prop)
    except (Exception, core.StepBudget) as e:
        if ctx.escaped(e):
            return ctx.finish(mod.RULE, [])
        traceback.print_exc()
        print('INCONCLUSIVE property=%s: harness error' % prop)
        rc = ctx.finish(mod.RULE, [])
        return rc if rc == 1 else 2
    return ctx.finish(mod.RULE, mod.FILES)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: harness error')
        rc = 2
    sys.exit(rc)
