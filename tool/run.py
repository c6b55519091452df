"""Check runner: python3 tool/run.py <PROPERTY> [--tier quick|thorough]

exit 0: the rule holds on every instance of the current tree
exit 1: VIOLATION line(s)
exit 3: the analysis could not answer (does not compile, anchor vanished)
"""
import sys, os, time, json, traceback, importlib, glob, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'checks'))
import fe, ir
from fe import AnalysisBroken

class Ctx:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.viol = []; s.counts = {}; s.notes = []; s.samples = []; s.assume = []; s.rules = []
        s.units = set(); s.fns = set()
    def mod(s, group, **kw):
        m = ir.module(group, **kw)
        s.units |= set(m.units)
        return m
    def seen(s, fn): s.fns.add(fn.name)
    def ob(s, kind, n=1): s.counts[kind] = s.counts.get(kind, 0) + n
    def rule(s, t): s.rules.append(t)
    def assumption(s, t): s.assume.append(t)
    def sample(s, t):
        if len(s.samples) < 40: s.samples.append(t)
    def bad(s, key, where, msg):
        """one violation: key identifies the instance without line numbers"""
        if not any(v['key'] == key for v in s.viol):
            s.viol.append({'key': key, 'where': where, 'msg': msg})
    def need(s, cond, msg):
        if not cond: raise AnalysisBroken(msg)
    def atleast(s, kind, n):
        if s.counts.get(kind, 0) < n:
            raise AnalysisBroken('%s: only %d instances of %s found, at least %d confirmed by reading' % (s.pid, s.counts.get(kind, 0), kind, n))

def load_checks():
    reg = {}
    for p in sorted(glob.glob(os.path.join(ROOT, 'checks', '*.py'))):
        m = importlib.import_module(os.path.basename(p)[:-3])
        reg.update(getattr(m, 'CHECKS', {}))
    return reg

def known():
    p = os.path.join(ROOT, 'known_findings.txt'); r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> key=<key> -- <what fails>
                h, _, d = l[7:].partition(' -- ')
                f = dict(x.split('=', 1) for x in h.split(' ') if '=' in x)
                r[(f['property'], f['key'])] = d
    return r

def run(pid, tier):
    t0 = time.time()
    reg = load_checks()
    if pid not in reg:
        print('unknown property', pid); return 3
    c = Ctx(pid, tier)
    try:
        fe.build_irx()
        variants = [None]
        if tier == 'thorough': variants = [None, 'nomemdebug']
        for v in variants:
            fe.VARIANT = v; ir._mods.clear()
            reg[pid](c)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if not c.viol: return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid); return 3
    kn = known(); new = []
    for v in c.viol:
        d = kn.get((pid, v['key'].replace(' ', '_')))
        if d is not None: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, d, v['where']))
        else: new.append(v)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    cov = {'explanation': ' '.join(c.rules) or 'see DESIGN.md', 'units_analysed': len(c.units), 'functions_analysed': len(c.fns)}
    cov.update({k.replace(' ', '_'): n for k, n in c.counts.items()})
    cov['samples'] = c.samples[:20]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': c.assume, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    rep = os.path.join(ROOT, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        for v in new: f.write('%s\n  at %s\n  rule: %s\n  key: %s\n' % (v['msg'], v['where'], ' '.join(c.rules), v['key'].replace(' ', '_')))
    print('%s: units=%d functions=%d %s' % (pid, len(c.units), len(c.fns), ' '.join('%s=%d' % (k.replace(' ', '_'), n) for k, n in c.counts.items())))
    for v in new:
        print('  %s: %s [key=%s]' % (v['where'], v['msg'], v['key'].replace(' ', '_')))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    return 0

if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    sys.exit(run(a.pid, a.tier))
