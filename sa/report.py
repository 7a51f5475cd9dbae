"""Result of one check: what was analysed, and what is wrong."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, 'known_findings.txt')

RULES = {}


def rule(pid):
    def deco(f):
        RULES[pid] = f
        return f
    return deco


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.counts = {}
        self.sites = []
        self.functions = set()
        self.violations = {}
        self.notes = []
        self.minimum = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fn(self, f):
        self.functions.add(f.key if hasattr(f, 'key') else f)

    def ob(self, ok, key, where, msg, detail=None):
        """one obligation: discharged, or a violation"""
        self.count('obligations')
        if len(self.sites) < 400:
            self.sites.append('%s: %s%s' % (where, key, '' if ok else ' (violated)'))
        if ok:
            self.count('discharged')
        else:
            self.violation(key, where, msg, detail)
        return ok

    def violation(self, key, where, msg, detail=None):
        if key not in self.violations:
            self.violations[key] = {'where': where, 'message': msg, 'detail': detail}

    def need(self, name, n):
        """the analysis has lost its subject if it sees fewer than n of these"""
        self.minimum[name] = n


def parts(prog, res, *fns):
    """the parts of a rule; one which loses its subject does not hide what another one reports"""
    from ir import Broken
    lost = None
    for f in fns:
        try:
            f(prog, res)
        except Broken as e:
            lost = lost or e
        except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
            import traceback
            lost = lost or Broken('%s: %s' % (getattr(f, '__name__', '?'), traceback.format_exc()[-600:]))
    if lost is not None and not set(res.violations) - set(known_findings().get(res.pid, {})):
        raise lost


def known_findings():
    """{property: {key: text}} of the findings listed as not repaired"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('known: property='):
                continue
            rest = line[len('known: property='):]
            pid, rest = rest.split(' ', 1)
            if not rest.startswith('key=<'):
                continue
            key, text = rest[5:].split('> ', 1)
            out.setdefault(pid, {})[key] = text.strip()
    return out


def finish(res, prog, tier, t0, level, technique, quiet=False):
    """print, write the evidence file; exit status"""
    from ir import Broken
    for name, n in res.minimum.items():
        if res.counts.get(name, 0) < n and not res.violations:
            raise Broken('%s: only %d %s analysed, at least %d expected'
                         % (res.pid, res.counts.get(name, 0), name, n))
    known = known_findings().get(res.pid, {})
    new = {k: v for k, v in res.violations.items() if k not in known}
    cov = {'explanation': '%s. Analysed from the current source of %s: %d units, %d functions, %d calls; '
                          'rule instances and where they are: see obligations and samples.'
                          % (technique, prog.repo, len(prog.units), len(prog.functions), prog.ncalls())}
    cov['units'] = len(prog.units)
    cov['program_functions'] = len(prog.functions)
    cov['functions_examined'] = len(res.functions)
    for k, v in res.counts.items():
        cov[k] = v
    cov['samples'] = res.sites[:40]
    if res.notes:
        cov['notes'] = res.notes
    cov['known_findings'] = sorted(k for k in res.violations if k in known)
    ev = {'property': res.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': ASSUME, 'violations': len(new)}
    print('%s: %s' % (res.pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(res.counts.items()))))
    print('%s: functions examined: %d' % (res.pid, len(res.functions)))
    for n in res.notes:
        print('%s: %s' % (res.pid, n))
    for k, v in res.violations.items():
        if k in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (res.pid, known[k], v['where']))
    status = 0
    if not quiet:
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, res.pid + '.replay.txt')
        with open(os.path.join(d, res.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if os.path.exists(replay):
            os.unlink(replay)
        if new:
            with open(replay, 'w') as f:
                for k, v in new.items():
                    f.write('property %s\nkey     %s\nwhere   %s\n%s\n' % (res.pid, k, v['where'], v['message']))
                    if v['detail']:
                        f.write(v['detail'] + '\n')
                    f.write('\n')
    for k, v in new.items():
        print('  %s: %s [%s]' % (v['where'], v['message'], k))
        if v['detail'] and not quiet:
            print('    ' + v['detail'].replace('\n', '\n    '))
    if new:
        print('VIOLATION property=%s replay=%s' % (res.pid, os.path.join('evidence', res.pid + '.replay.txt')))
        status = 1
    sys.stdout.flush()
    return status


ASSUME = [
    'clang-18 IR of every unit under /repo/monotone at -O0 with asserts, the include path of the build',
    'indirect calls go to the functions whose address flows to the called field or argument',
    'memory allocation is not assumed to fail unless the rule says so',
]
