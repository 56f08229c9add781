#!/usr/bin/env python3
"""mon/run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--replay')
    o = a.parse_args()
    mod = importlib.import_module(o.prop.lower())
    try:
        if o.replay:
            d = json.load(open(o.replay))
            binary = mod.build() if hasattr(mod, 'build') else core.build_sut(getattr(mod, 'VARIANT', 'full'))
            env = core.Env(o.prop, o.tier, o.seed, 0, binary)
            env.sut_args = getattr(mod, 'SUT', {})
            with core.scratch_dir():
                v, inc = core.judge(mod, env, d['case'])
                env.reset()
            if v:
                print(f'{o.prop}: {v}\nVIOLATION property={o.prop} replay={o.replay}')
                return 1
            print('inconclusive: ' + inc if inc else 'not reproduced')
            return 3 if inc else 0
        if hasattr(mod, 'main'):
            return mod.main(o.prop, o.tier, o.seed)
        return core.run_check(mod, o.prop, o.tier, o.seed)
    except core.Inconclusive as e:
        print(f'{o.prop}: INCONCLUSIVE {e}')
        return 3


sys.exit(main())
