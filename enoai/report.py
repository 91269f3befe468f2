"""Obligations, verdicts, evidence and the command line of the checks."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('ENO_EVIDENCE') or os.path.join(VERIF, 'evidence')


class AnchorVanished(Exception):
    pass


class Finding:
    def __init__(self, rule, construct, message, detail=None):
        self.rule, self.construct, self.message, self.detail = rule, construct, message, detail or {}

    def ident(self):
        return f'{self.rule} | {self.construct}'


class Ob:
    """the running obligation"""

    def __init__(self, name, tier):
        self.name, self.tier = name, tier
        self.findings = {}
        self.undecided = {}
        self.counts = {}
        self.samples = []
        self.engines = []

    def engine(self, e):
        self.engines.append(e)
        return e

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def violation(self, rule, construct, message, **detail):
        f = Finding(rule, construct, message, detail)
        if f.ident() not in self.findings:
            self.findings[f.ident()] = f

    def unsure(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def result(self):
        funcs, steps, cuts, imp, lines = set(), 0, {}, {}, set()
        for e in self.engines:
            funcs |= e.visited_funcs
            lines |= e.visited_lines
            steps += e.steps
            for k, v in e.cuts.items():
                cuts[k] = cuts.get(k, 0) + v
            for k, v in e.imprecise.items():
                imp[k] = imp.get(k, 0) + v
        return {'name': self.name, 'counts': self.counts, 'samples': self.samples,
                'undecided': self.undecided, 'funcs': sorted(funcs), 'lines': len(lines), 'steps': steps,
                'cuts': cuts, 'imprecise': imp,
                'findings': [(f.rule, f.construct, f.message, f.detail) for f in self.findings.values()]}


class Alarm(Exception):
    pass


def _run(fn, name, tier, limit, q):
    sys.setrecursionlimit(20000)
    ob = Ob(name, tier)

    def onalarm(*_):
        raise Alarm()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    t = time.time()
    err = None
    try:
        fn(ob)
    except Alarm:
        ob.unsure(f'time limit of {limit}s')
    except AnchorVanished as e:
        err = str(e)
    except RecursionError:
        ob.unsure('analysis recursion depth')
    except MemoryError:
        ob.unsure('analysis memory')
    except Exception as e:                      # construct the analysis does not model: no verdict
        tb = traceback.extract_tb(e.__traceback__)
        where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else ''
        ob.unsure(f'{type(e).__name__}: {str(e)[:200]} ({where})')
        if os.environ.get('ENO_DEBUG'):
            traceback.print_exc()
    signal.alarm(0)
    r = ob.result()
    r['error'] = err
    r['wall'] = round(time.time() - t, 2)
    q.put(json.dumps(r, default=str))


def run_obligations(obs, tier, workers=None, limit=None):
    """obs: [(name, fn(ob))] -> results in order"""
    ctx = mp.get_context('fork')
    workers = workers or min(8, os.cpu_count() or 1)
    limit = limit or (400 if tier == 'quick' else 2400)
    total = time.time() + (700 if tier == 'quick' else 10000)
    pending = list(obs)[::-1]
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < workers:
            name, fn = pending.pop()
            rem = total - time.time()
            if rem < 5:
                results[name] = {'name': name, 'counts': {}, 'samples': [], 'undecided': {'overall time limit': 1},
                                 'funcs': [], 'lines': 0, 'steps': 0, 'cuts': {}, 'imprecise': {}, 'findings': [],
                                 'error': None, 'wall': 0}
                continue
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_run, args=(fn, name, tier, min(limit, rem), q), daemon=True)
            p.start()
            running[name] = (p, q)
        done = []
        for name, (p, q) in running.items():
            if not q.empty():
                results[name] = json.loads(q.get())
                p.join()
                done.append(name)
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty():
                    continue
                results[name] = {'name': name, 'counts': {}, 'samples': [], 'undecided': {'analysis process died': 1},
                                 'funcs': [], 'lines': 0, 'steps': 0, 'cuts': {}, 'imprecise': {}, 'findings': [],
                                 'error': None, 'wall': 0}
                done.append(name)
        for n in done:
            del running[n]
        if not done:
            time.sleep(0.01)
    return [results[n] for n, _ in obs]


def known_findings():
    """{(property, ident)}: lines 'property=<id> <rule> | <construct> — <text>'"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('property='):
                pid, rest = line[9:].split(' ', 1)
                ident, _, text = rest.partition(' — ')
                res.append((pid, ident.strip(), text.strip()))
    return res


def main(pid, title, rule, obligations, explanation, assumptions, tier, seed):
    t = time.time()
    results = run_obligations(obligations, tier)
    known = [(i, x) for p, i, x in known_findings() if p == pid]
    findings, seen, knownhit = [], set(), set()
    for r in results:
        for f in r['findings']:
            ident = f'{f[0]} | {f[1]}'
            k = next((x for x in known if x[0] == ident), None)
            if k is not None:
                knownhit.add(k)
            elif ident not in seen:
                seen.add(ident)
                findings.append({'rule': f[0], 'construct': f[1], 'message': f[2], 'detail': f[3],
                                 'obligation': r['name']})
    errors = [f'{r["name"]}: {r["error"]}' for r in results if r.get('error')]
    funcs = sorted({x for r in results for x in r['funcs']})
    counts = {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    cuts, imp = {}, {}
    for r in results:
        for k, v in r['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        for k, v in r['imprecise'].items():
            imp[k] = imp.get(k, 0) + v
    und = {r['name']: r['undecided'] for r in results if r['undecided']}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'rule': rule,
            'obligations': len(results),
            'discharged': sum(1 for r in results if not r['findings'] and not r['undecided'] and not r.get('error')),
            'undecided_obligations': und,
            'counts': counts,
            'functions_analysed': funcs,
            'abstract_steps': sum(r['steps'] for r in results),
            'bounds_hit': cuts,
            'imprecision': imp,
            'samples': [s for r in results for s in r['samples']][:8],
            'obligation_names': [r['name'] for r in results][:400],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t, 2),
        'violations': len(findings),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for ident, text in sorted(knownhit):
        print(f'KNOWN-FINDING: property={pid} {ident} {text}')
    if os.environ.get('ENO_VERBOSE'):
        for r in results:
            print(f"  {r['name']:<50} {r['wall']:>7}s steps={r['steps']} {r['counts']} und={r['undecided']}"
                  f" imp={list(r['imprecise'])[:4]}")
    print(f'{pid} {title}: {len(results)} obligations, {ev["coverage"]["discharged"]} discharged, '
          f'{len(und)} undecided, {len(findings)} violations, {len(funcs)} functions analysed')
    rp = os.path.join(EVID, f'{pid}.report.json')
    if findings:
        with open(rp, 'w') as fh:
            json.dump(findings, fh, indent=1, default=str)
        for f in findings[:20]:
            print(f'  {f["rule"]}: {f["construct"]}: {f["message"]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    if errors:
        for e in errors:
            print('not decided, anchor vanished:', e)
    return 0
