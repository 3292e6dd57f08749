#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--wall S] [--runs N] | <ID> --replay FILE | <ID> --show INDEX"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import engine  # noqa: E402


def main(argv):
    prop = argv[0].upper()
    if argv[1:2] == ['--worker']:
        w, n, seed, tier, root = argv[2:7]
        engine.worker(prop, int(w), int(n), int(seed), tier, root)
        return 0
    opt = dict(zip(argv[1::2], argv[2::2]))
    if '--replay' in opt:
        return engine.replay(prop, opt['--replay'])
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')) or 1)
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick')) or 'quick'
    if '--show' in opt:
        import json
        i = int(opt['--show'])
        print(json.dumps(engine.load(prop).plan(engine.rng_of(seed, prop, i), i, tier), indent=1))
        return 0
    return engine.check(prop, tier, seed, float(opt['--wall']) if '--wall' in opt else None, int(opt['--runs']) if '--runs' in opt else None,
                        int(opt['--workers']) if '--workers' in opt else None, minimal=opt.get('--minimise', '1') == '1')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
