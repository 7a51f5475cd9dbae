#!/usr/bin/env python3
"""check.py ID...: decide properties of /repo from its source.

exit 0: holds; 1: VIOLATION line; 2: the analysis cannot give an answer."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cond
import ir
import report
import rules
import rules_errors
import rules_lock


def forget():
    """what was computed for one program is not used for another one"""
    for m in (cond._mods, cond._thr, rules_errors._eng, rules_lock._run):
        m.clear()


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    quiet = '-q' in sys.argv
    if not ids:
        ids = sorted(report.RULES)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    worst = 0
    for pid in ids:
        t0 = time.time()
        try:
            prog = ir.program()
            res = report.Result(pid)
            report.RULES[pid](prog, res)
            res.count('builds')
            if tier == 'thorough':
                # the same rules on the program as the release build compiles it
                forget()
                report.RULES[pid](ir.program(release=True), res)
                res.count('builds')
                forget()
            s = report.finish(res, prog, tier, t0, 'other', rules.TECHNIQUE.get(pid, 'static analysis'), quiet)
        except ir.Broken as e:
            print('BROKEN %s: %s' % (pid, e))
            s = 2
        except Exception:
            traceback.print_exc()
            print('BROKEN %s' % pid)
            s = 2
        worst = max(worst, s) if s != 1 or worst == 2 else 1
    return worst


if __name__ == '__main__':
    sys.exit(main())
