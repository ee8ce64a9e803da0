"""Prove one proof function of a compiled specification file; JSON on stdout.

usage: prove.py FILE.bc PROOF OPTS.json"""
import json
import os
import re
import resource
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vcg import terms as tm            # noqa: E402
from vcg.terms import const, ule, bnot  # noqa: E402
from vcg.ir import Module              # noqa: E402
from vcg.exec import Executor, Budget  # noqa: E402
from vcg.mem import Unsupported        # noqa: E402


def minimise(ex, ob):
    """A model of the failed obligation with small values where possible."""
    pc = list(ob.pc) + [bnot(ob.cond)]
    vals, sizes = [], []
    for k in ob.inputs or ():
        if k[0] == 'val' and k[3].w >= 8:
            vals.append(k[3])
        elif k[0] == 'mem':
            sizes.append(k[3][0])
        elif k[0] == 'havoc':
            sizes.append(k[3][0])
    t0 = time.time()
    extra = []
    best = ob.model

    def attempt(cs):
        nonlocal best
        if time.time() - t0 > 25:
            return False
        cs = [c for c in cs if c is not tm.TRUE]
        if any(c is tm.FALSE for c in cs):
            return False
        r, m = ex.solver.check(pc, extra + cs, timeout=3000)
        if r == 'sat':
            best = m
            extra.extend(cs)
            return True
        return False
    ex.solver.mcache = []
    for lim in (6, 64, 4096):
        if attempt([ule(v, const(lim, v.w)) for v in vals] +
                   [ule(s, const(16 * lim, s.w)) for s in sizes]):
            break
    else:
        for s in sizes:
            for lim in (64, 4096, 1 << 24):
                if attempt([ule(s, const(lim, s.w))]):
                    break
        for v in vals:
            for lim in (2, 16, 256, 1 << 16):
                if attempt([ule(v, const(lim, v.w))]):
                    break
    if best is None:
        r, best = ex.solver.check(pc, extra)
    return best


def replay_text(ob, m):
    out = []
    if m is None:
        return ''
    for k in ob.inputs or ():
        try:
            if k[0] == 'val':
                out.append('val %s %d %d' % (k[1], k[2], int(m.val(k[3]))))
            else:
                d = k[3]
                size, nm, gran = m.val(d[0]), d[1], d[2]
                tab, dflt = m.ufs.get(nm, ({}, 0))
                ln = '%s %s %d %d %d %d' % (k[0], k[1], k[2], size, gran, int(dflt))
                for a, v in sorted(tab.items()):
                    if a[0] + gran <= size:
                        ln += ' %d %d' % (a[0], int(v))
                out.append(ln)
        except tm.NoVal:
            pass
    return '\n'.join(out) + '\n'


def main():
    bc, proof, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    lim = opts.pop('mem_gb', 10) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    t0 = time.time()
    mod = Module(bc)
    repl = opts.pop('replace', [])
    ex = Executor(mod, opts)
    for pat, stub in repl:
        n = 0
        for f in mod.functions:
            if re.search(pat, f) and f != stub:
                ex.replaced[f] = stub
                n += 1
    res = dict(proof=proof, budget=None)
    try:
        ex.run(ex.start('proof_' + proof))
    except Budget as e:
        res['budget'] = str(e)
    except (RecursionError, MemoryError, Unsupported) as e:
        res['budget'] = '%s %s' % (type(e).__name__, e)
    except Exception as e:
        import traceback
        res['budget'] = 'internal: ' + traceback.format_exc()[-1500:]
    fails = []
    seen = {}
    for ob in ex.obl:
        k = (ob.kind, ob.label, ob.status)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 3:
            continue
        m = None
        if ob.status == 'failed':
            try:
                m = minimise(ex, ob)
            except Exception:
                m = ob.model
        fails.append(dict(kind=ob.kind, label=ob.label, status=ob.status, where=ob.where,
                          trace=[(a, str(b)) for a, b in ob.trace], cond=tm.show(ob.cond)[:1500],
                          replay=replay_text(ob, m) if m is not None else ''))
    st = ex.solver.stats
    res.update(fails=fails, proved=ex.n_proved, trivial=ex.n_trivial, failed=len(ex.obl),
               unsupported=sorted({(u, w[-1] if w else '') for u, w in ex.unsupported}),
               paths=ex.paths, covers=sorted(ex.covers), bounded=sorted(map(str, ex.bounded)),
               loops={str(k): str(v) for k, v in ex.loops_ok.items()},
               functions=sorted(ex.functions), assumed=sorted(ex.assumed),
               replaced=sorted(set(ex.replaced) & set(mod.functions)) if repl else [],
               labels=sorted('%s: %s' % k for k in ex.obl_ok if k[0] == 'check'),
               queries=st.queries, solver_s=round(st.time, 2), by=st.by, unknown=st.unknown,
               wall=round(time.time() - t0, 2), assumptions=ex.assume_count)
    sys.stdout.write(json.dumps(res))


if __name__ == '__main__':
    main()
