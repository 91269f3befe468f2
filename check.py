#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from enoai.props import registry
from enoai import report


def run(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = registry.PROPS[pid]
    obs = p.obligations(tier)
    if '--only' in sys.argv:
        pat = sys.argv[sys.argv.index('--only') + 1]
        obs = [o for o in obs if pat in o[0]]
    i = registry.info(pid) or {'title': '?', 'technique': '', 'statement': '', 'note': ''}
    return report.main(pid, i['title'], p.rule, obs, i['technique'] + '. ' + i['statement'], [i['note']], tier, seed)


if __name__ == '__main__':
    sys.exit(run(sys.argv[1]))
