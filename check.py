#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- decide one property on /repo's current source."""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
import facts, mir, report

def main():
    if sys.argv[1] == '--setup':
        facts.get(facts.ALL); print('facts ready'); return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    rule = importlib.import_module(pid)
    rep = report.Report(pid, rule.RULE)
    d = facts.get(rule.CRATES)
    prog = mir.Program(d, [c + '-lib' for c in rule.CRATES])
    rule.run(prog, rep, tier)
    return rep.finish(tier, getattr(rule, 'LEVEL', 'other'))

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('no answer: the analysis itself failed'); sys.exit(2)
