"""C19: planners as objects: destruction, copying, moving."""
import lib, sweep
from c01 import KINDS
from interp import Ptr, U, fmtloc
from bdd import Node
from query import Q
from terms import T

R_LEAK = 'destroying a planner, also through its base class, releases everything it owns'
R_REF = 'a copied or moved-to planner does not refer to the original'
R_SAME = 'a copied or moved-to planner has the parameters of the original'
FAMS = ['rs', 'dubins', 'cc00_rs', 'hc00_rs', 'hc0pm_rs', 'hcpm0_rs', 'hcpmpm_rs', 'hc_rs', 'cc00_dubins', 'cc0pm_dubins', 'ccpm0_dubins',
        'ccpmpm_dubins', 'cc_dubins']


class Life(Q):
    def __init__(self, prog):
        self.me = None
        self.orig = None
        self.bad = []
        self.copies = 0
        Q.__init__(self, prog, partition=False, turns=False)

    def s_self(self, I, name, args, ins, pc):
        p = I.simp(args[0], pc)
        self.me = p.obj if type(p) is Ptr else None
        return Q.s_self(self, I, name, args, ins, pc)

    def scalars(self, o):
        """contents of an object and of what it owns, with pointers followed"""
        out, todo, seen = {}, [((), o)], {o.id}
        while todo:
            path, x = todo.pop()
            for off, v in x.cells.items():
                if type(v) is Ptr:
                    if v.obj is not None and v.obj.kind == 'heap' and v.obj.id not in seen:
                        seen.add(v.obj.id)
                        todo.append((path + (off,), v.obj))
                elif not (type(v) is U):
                    out[path + (off,)] = v
        return out

    def on_mark(self, m, pc):
        if m == 'original':
            self.orig = self.scalars(self.me)
            self.osize = self.me.size
        if m == 'copy':
            self.copies += 1
            o, todo, seen = self.me, [self.me], {self.me.id}
            while todo:
                x = todo.pop()
                for off, v in x.cells.items():
                    for lf in (self.B.leaves(v) if type(v) is Node else [v]):
                        if type(lf) is not Ptr or lf.obj is None or lf.obj.kind in ('global', 'const', 'func', 'fn') or lf.obj.id in seen:
                            continue
                        seen.add(lf.obj.id)
                        if lf.obj.kind == 'heap' and not (type(lf.obj.freed) is int and lf.obj.freed == 0):
                            self.bad.append((R_REF, 'the planner (offset %d of %s) refers to storage of the original, which is gone' % (off, fmtloc(x.site))))
                        elif lf.obj.kind == 'heap':
                            todo.append(lf.obj)
            now = self.scalars(o)
            for k, v in self.orig.items():
                if now.get(k, v) is not v and not (type(v) is not T and now.get(k) == v):
                    self.bad.append((R_SAME, 'offset %s holds %s instead of %s' % ('/'.join(map(str, k)), now.get(k), v)))
                    break


def task(prog, kind, fam):
    def f():
        q = Life(prog)
        h = sweep.fresh(q.I)
        q.run('life_%s_%s' % (kind, fam))
        sweep.modelled(q.I, fam)
        v = []
        if 'gone' not in q.marks:
            raise lib.Broken('life_%s_%s did not reach its end' % (kind, fam))
        for r in q.I.reports:
            v.append((KINDS.get(r['kind'], r['kind']), sweep.where(r), '%s; %s of planner %s' % (r['detail'], kind, fam), r['path']))
        for o, l in q.I.leaks(h, q.marks['gone']):
            v.append((R_LEAK, '%s (%s)' % (fmtloc(o.site), q.prog.short(o.site[2]).split('(')[0]), 'storage allocated here is not released; %s of planner %s' % (
                {'scope': 'end of scope', 'base': 'deletion through the base class', 'copy': 'copy'}[kind], fam), o.stack))
        for ru, w in q.bad:
            v.append((ru, 'planner ' + fam, w, None))
        c = q.I.counts
        return {'viol': v, 'counts': {'obligations': c['derefs'] + c['frees'] + q.copies * 2 + 1, 'releases checked': c['frees'], 'life cycles': 1,
                                      'copies and moves examined': q.copies}}
    return f


def run(ctx):
    ctx.fan([(k + ' ' + f, task(ctx.prog, k, f)) for f in FAMS for k in ('scope', 'base', 'copy')])
    for r in list(KINDS.values()) + [R_LEAK, R_REF, R_SAME]:
        ctx.rule(r)
    ctx.assumption('allocation succeeds; exceptions are not modelled')
    ctx.need('life cycles', 3 * len(FAMS))
    ctx.need('releases checked', 20)
    return ('Ownership and lifetime analysis (gated abstract heap over LLVM IR) of construction, destruction (end of scope and through the base class) and of every '
            'copy and move operation that the types admit at compile time; planners whose types admit none are settled by the type system.')
