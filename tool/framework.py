"""Obligations, verdicts, parallel driver and evidence."""
import json
import multiprocessing
import os
import sys
import time
import traceback

import algebra as al
import engine as en
import world as w
from engine import AbsRaise, Undecided

SETTLED = float(os.environ.get('VERIF_SETTLED', 100))     # seconds after which a violation that was found is reported at once
GIVE_UP = 840.     # seconds after which what has been analysed is reported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rec(object):
    """What one analysis context established."""

    def __init__(self, label=''):
        self.label = label
        self.oks = {}          # (rule, construct) -> count
        self.viol = []
        self.finds = []
        self.und = []
        self.notes = []
        self.funcs = set()
        self.stmts = set()
        self.steps = 0
        self.contexts = 0
        self.ctxname = label

    def ok(self, rule, construct, n=1):
        k = (rule, construct)
        self.oks[k] = self.oks.get(k, 0) + n

    def bad(self, rule, construct, loc, detail):
        self.viol.append(dict(rule=rule, construct=construct, where=locstr(loc), detail=str(detail)[:1500],
                              context=self.ctxname))

    def finding(self, key, loc, detail):
        self.finds.append(dict(key=key, where=locstr(loc), detail=str(detail)[:600], context=self.ctxname))

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def undecided(self, why, loc=None):
        self.und.append(dict(why=str(why)[:600], where=locstr(loc), context=self.ctxname))

    def check(self, cond, rule, construct, loc, detail):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, loc, detail() if callable(detail) else detail)
        return cond

    def absorb(self, I):
        self.funcs |= set('%s:%s' % c for c in I.calls)
        self.stmts |= set(I.stmts)
        self.steps += I.steps
        if getattr(I, 'tainted', None):
            self.undecided(I.tainted)


def locstr(loc):
    if not loc:
        return None
    if isinstance(loc, str):
        return loc
    return '%s:%s in %s' % tuple(loc)


def explore(rec, cfg, build, body, construct, limit=64, confirm=False):
    """Run body(ctx) on every refinement of the context; exceptions of the
    analysed program are violations of the rule 'completes'."""
    try:
        def run(ctx):
            rec.ctxname = ctx.name
            try:
                body(ctx)
            except AbsRaise as e:
                rec.ctxname = ctx.describe()
                if e.cls == 'StaleRead':
                    rec.bad('no value of another iteration is used', construct, e.loc,
                            'the name %r is read while it holds the value of another iteration' % (e.value,))
                else:
                    rec.bad('completes without raising', construct, e.loc, '%s raised: %s' % (e.cls, e.value))
            return True
        n0 = len(rec.viol)
        for ctx, _ in en.explore(build, run, limit):
            rec.contexts += 1
            if len(rec.viol) - n0 > 8:
                break
    except Undecided as e:
        if confirm:     # other contexts decide; this one could only confirm
            rec.note('not confirmed for every extent: %s' % e.why)
        else:
            rec.undecided(e.why, e.loc)
    except RecursionError:
        rec.undecided('recursion too deep')
    except al.AbsZeroDivision:
        rec.bad('completes without raising', construct, None,
                'division by zero, or a branch on a coincidence of coordinates that divides by zero later')


def _task(args):
    mod, fn, cfg, label = args
    rec = Rec(label)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        al.reset()
        if '.' in fn:
            mod, fn = fn.split('.')
        m = __import__(mod)
        getattr(m, fn)(rec, cfg)
    except Undecided as e:
        rec.undecided(e.why, e.loc)
    except AbsRaise as e:
        rec.bad('completes without raising', label, e.loc, '%s: %s' % (e.cls, e.value))
    except SyntaxError as e:
        rec.undecided('the source does not parse: %s' % e)
    except Exception as e:      # the analyser itself failed
        rec.undecided('internal error %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    rec.wall = time.time() - t0
    return rec


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            f = line[len('finding:'):].strip().split(None, 2)
            if f[0] == 'property=' + pid:
                out[f[1].split('=', 1)[1]] = f[2] if len(f) > 2 else ''
    return out


def run_property(pid, spec, tier, jobs=None):
    t0 = time.time()
    tasks = spec['tasks'](tier)
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(tasks)))
    args = [(spec['module'], fn, cfg, label) for fn, cfg, label in tasks]
    cut = None
    if jobs > 1:
        recs = []
        with multiprocessing.Pool(jobs) as pool:
            it = pool.imap_unordered(_task, args, chunksize=1)
            for _ in args:
                # once a violation is established the remaining contexts only add detail
                settled = any(r.viol for r in recs)
                try:
                    recs.append(it.next(timeout=max(1., (SETTLED if settled else GIVE_UP) - (time.time() - t0))))
                except multiprocessing.TimeoutError:
                    cut = 'settled' if settled else 'time'
                    break
            pool.terminate()
        recs.sort(key=lambda r: r.label)
    else:
        recs = [_task(a) for a in args]
    wall = time.time() - t0
    oks, viol, finds, und = {}, [], [], []
    if cut:
        msg = '%d of %d contexts were not analysed (%s)' % (len(args) - len(recs), len(args),
              'a violation is already established' if cut == 'settled' else 'out of time')
        und.append(dict(why=msg, where=None, context='time'))
    funcs, stmts = set(), set()
    nctx = 0
    for r in recs:
        for k, n in r.oks.items():
            oks[k] = oks.get(k, 0) + n
        viol += r.viol
        finds += r.finds
        und += r.und
        funcs |= r.funcs
        stmts |= r.stmts
        nctx += r.contexts
    kf = known(pid)
    seen = {}
    for f in finds:
        if f['key'] in kf:
            seen.setdefault(f['key'], f)
        else:
            viol.append(dict(rule='deviation not in the known-findings file', construct=f['key'],
                             where=f['where'], detail=f['detail'], context=f['context']))
    for key, n in spec.get('expect', {}).items():
        tot = sum(v for (rule, c), v in oks.items() if rule == key)
        bad = sum(1 for v in viol if v['rule'] == key)
        if tot + bad < n and not viol:
            und.append(dict(why='rule %r was instantiated %d times, at least %d expected' % (key, tot, n),
                            where=None, context='coverage'))
    for fn in spec.get('anchors', ()):
        if not any(f == fn or f.endswith(fn) for f in funcs) and not viol:
            und.append(dict(why='anchor %s was never reached' % fn, where=None, context='coverage'))
    notes = sorted(set(n for r in recs for n in r.notes))
    nob = sum(oks.values())
    print('%s [%s] %s' % (pid, tier, spec['title']))
    print('  contexts analysed: %d (refined: %d); functions of the repository interpreted: %d; statements: %d'
          % (len(tasks), nctx, len(funcs), len(stmts)))
    for f in sorted(funcs):
        print('    function', f)
    rules = {}
    for (rule, c), n in sorted(oks.items()):
        rules.setdefault(rule, [0, set()])
        rules[rule][0] += n
        rules[rule][1].add(c)
    for rule, (n, cs) in sorted(rules.items()):
        print('  rule %-60s discharged %5d on %d construct(s): %s' % (rule, n, len(cs), ', '.join(sorted(cs))[:160]))
    for n in notes:
        print('  note:', n)
    for key, f in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s: %s (at %s)' % (pid, key, kf[key], f['where']))
    groups = {}
    for v in viol:
        groups.setdefault((v['rule'], v['construct'], v['where']), []).append(v)
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, '%s.violations.json' % pid)
    if os.path.exists(replay):
        os.remove(replay)
    status = 0
    if groups:
        status = 1
        out = []
        for (rule, c, where), vs in groups.items():
            d = dict(vs[0])
            d['contexts'] = len(vs)
            d['reproduce'] = 'python3-vt /verif/tool/check.py %s --tier %s' % (pid, tier)
            out.append(d)
            print('  violated: %s | construct: %s | at %s | %d context(s), e.g. %s\n      %s'
                  % (rule, c, where, len(vs), vs[0]['context'][:200], vs[0]['detail'][:700]))
            if len(out) >= 25:
                print('  ... %d more' % (len(groups) - 25))
                break
        json.dump(out, open(replay, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    elif und:
        status = 2
    for u in und[:10]:
        print('  UNDECIDED: %s at %s [%s]' % (u['why'], u['where'], u['context'][:160]))
    evidence = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': spec['level'],
        'coverage': {
            'explanation': spec['explanation'],
            'rules': {r: {'discharged': n, 'constructs': sorted(c)} for r, (n, c) in rules.items()},
            'obligations': nob + len(viol), 'discharged': nob,
            'contexts': len(tasks), 'refined_contexts': nctx,
            'context_samples': [t[2] for t in tasks[:6]],
            'functions': sorted(funcs), 'statements': len(stmts),
            'known_findings': sorted(seen), 'undecided': len(und), 'notes': notes,
        },
        'assumptions': spec.get('assumptions', []),
        'violations': len(viol),
        'wall_s': round(wall, 2),
    }
    json.dump(evidence, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('  obligations %d, discharged %d, violations %d, undecided %d, %.1f s'
          % (nob + len(viol), nob, len(viol), len(und), wall))
    return status
