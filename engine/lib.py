"""Shared frame of the checks: program loading, worker processes, results, evidence."""
import gc, json, os, pickle, shutil, sys, tempfile, threading, time, traceback
import build, query

VERIF = os.path.dirname(build.HERE)
EV = os.environ.get('VERIF_EV') or os.path.join(VERIF, 'evidence')
gc.disable()
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class Broken(Exception):
    """the analysis cannot give an answer (vanished anchor, unsupported construct)"""


def short(path):
    for m in ('/repo/', build.REPO.rstrip('/') + '/'):
        i = path.find(m)
        if i >= 0:
            return path[i + len(m):]
    return path


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}           # key -> dict
        self.counts = {}
        self.rules = []
        self.assume = []
        self.samples = []
        self.scope = {}
        self._prog = None
        self.tmp = None
        self.level = 'other'

    def load(self, extra=(), defs=()):
        self.tmp = tempfile.mkdtemp(prefix='vp-%s.' % self.pid)
        self._prog = query.load_program(extra=extra, out=self.tmp, defs=defs)
        p = self._prog
        self.count('translation units', len(p.mods))
        return p

    @property
    def prog(self):
        return self._prog or self.load()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assumption(self, text):
        if text not in self.assume:
            self.assume.append(text)

    def violation(self, rule, where, what, path=()):
        """where: 'file:line (function)' or a named construct"""
        k = (rule, where, what)
        if k not in self.viol:
            if isinstance(path, dict):
                path = ['%s = %s' % kv for kv in path.items()]
            self.viol[k] = {'rule': rule, 'where': where, 'what': what, 'path': list(path or ())}

    def need(self, k, n):
        """an instance count that has to be reached for the analysis to mean anything"""
        if self.counts.get(k, 0) < n:
            raise Broken('rule instances vanished: %s = %d, expected at least %d' % (k, self.counts.get(k, 0), n))

    def fan(self, tasks, merge=None):
        fan(tasks, merge or self.merge_std)

    def merge_std(self, name, r):
        """result = {'counts':{}, 'viol':[(rule, where, what, path)], 'samples': []}"""
        for k, v in r.get('counts', {}).items():
            self.count(k, v)
        for v in r.get('viol', ()):
            self.violation(*v)
        for s in r.get('samples', ()):
            if len(self.samples) < 12:
                self.samples.append(s)


def fan(tasks, merge, nproc=None):
    """tasks: list of (name, callable).  Each runs in a forked child; merge(name, result) in the parent"""
    d = tempfile.mkdtemp(prefix='vpw.')
    run = {}
    todo = list(enumerate(tasks))
    fails = []
    try:
        while todo or run:
            while todo and len(run) < (nproc or NPROC):
                i, (name, fn) = todo.pop(0)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        try:
                            r = ('ok', fn())
                        except Exception as e:
                            r = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6)))
                        with open(os.path.join(d, str(i)), 'wb') as f:
                            pickle.dump(r, f)
                        code = 0
                    finally:
                        os._exit(code)
                run[pid] = (i, name)
            pid, st = os.wait()
            if pid not in run:
                continue
            i, name = run.pop(pid)
            fp = os.path.join(d, str(i))
            if not os.path.exists(fp):
                fails.append((name, 'worker ended with status %d' % st))
                continue
            with open(fp, 'rb') as f:
                kind, r = pickle.load(f)
            if kind == 'err':
                fails.append((name, r))
            else:
                merge(name, r)
    finally:
        for p in run:
            try:
                os.kill(p, 9)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)
    if fails:
        raise Broken('\n'.join('%s: %s' % f for f in fails[:2]) + (' ... %d more' % (len(fails) - 2) if len(fails) > 2 else ''))



def known(pid):
    out = []
    fp = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(fp):
        for e in json.load(open(fp)).get('findings', []):
            if e['property'] == pid and e.get('status') == 'known':
                out.append(e)
    return out


def matches(e, v):
    return e['rule'] == v['rule'] and e['where'] == v['where'] and e.get('what', v['what']) == v['what']


def finish(ctx, explanation):
    os.makedirs(EV, exist_ok=True)
    kn = known(ctx.pid)
    viol = []
    for v in ctx.viol.values():
        hit = [e for e in kn if matches(e, v)]
        if hit:
            print('KNOWN-FINDING: property=%s %s: %s (%s)' % (ctx.pid, v['where'], v['what'], v['rule']))
        else:
            viol.append(v)
    wall = time.time() - ctx.t0
    obl = ctx.counts.get('obligations', 0)
    cov = {'explanation': explanation, 'obligations': obl, 'discharged': obl - ctx.counts.get('obligations failed', len(viol)),
           'rules': ctx.rules, 'counts': ctx.counts, 'samples': ctx.samples}
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': ctx.assume, 'wall_s': round(wall, 2), 'violations': len(viol)}
    with open(os.path.join(EV, ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(ctx.counts):
        print('  %-46s %d' % (k, ctx.counts[k]))
    if viol:
        rp = os.path.join(EV, ctx.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in viol:
                f.write('%s\n  at %s\n  %s\n' % (v['rule'], v['where'], v['what']))
                for p in v['path']:
                    f.write('    via %s\n' % p)
        for v in viol[:20]:
            print('  %s: %s -- %s' % (v['where'], v['rule'], v['what']))
        if len(viol) > 20:
            print('  ... %d more' % (len(viol) - 20))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    print('OK property=%s obligations=%d wall=%.1fs' % (ctx.pid, obl, wall))
    return 0


def main(pid, tier, fn):
    code = [3]

    def body():
        ctx = Ctx(pid, tier)
        try:
            expl = fn(ctx)
            if not ctx.viol and ctx.counts.get('obligations', 0) == 0:
                raise Broken('no obligation was generated')
            code[0] = finish(ctx, expl)
        except Broken as e:
            if ctx.viol:                 # a definite violation found elsewhere still counts
                sys.stderr.write('analysis incomplete: %s\n' % e)
                code[0] = finish(ctx, 'incomplete analysis: %s' % e)
            else:
                sys.stderr.write('ANALYSIS-BROKEN property=%s: %s\n' % (pid, e))
        except SystemExit as e:
            code[0] = e.code if isinstance(e.code, int) else 3
        except BaseException:
            traceback.print_exc()
        finally:
            if ctx.tmp and ctx.tmp.startswith('/tmp/'):
                shutil.rmtree(ctx.tmp, ignore_errors=True)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(code[0])
