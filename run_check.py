#!/opt/venv/bin/python
"""run_check.py <PROPERTY> [--tier T] [--seed N] [--cases N] [--index I] [--replay FILE]"""
import argparse
import json
import logging
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VF_REPO', '/repo'))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier')
    parser.add_argument('--seed', type=int)
    parser.add_argument('--cases', type=int)
    parser.add_argument('--index', type=int)
    parser.add_argument('--workers', type=int)
    parser.add_argument('--replay')
    args = parser.parse_args()
    import multiprocessing.connection  # noqa  pylint: disable=unused-import
    logging.disable(logging.CRITICAL)
    from vf import core
    index, seed, tier = args.index, args.seed, args.tier
    if args.replay:
        with open(args.replay, encoding='utf-8') as f:
            data = json.load(f)
        index, seed, tier = data['index'], data['seed'], data['tier']
    sys.stdout.flush()
    code = core.run_check(
        args.property, tier=tier, seed=seed, cases=args.cases,
        workers=args.workers, only_index=index
    )
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
