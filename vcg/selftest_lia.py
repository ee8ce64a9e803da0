"""Differential test of the integer-arithmetic translation: asserting the variables' values must
admit the machine value of a random term (the abstraction is sound), and for terms inside the
exact fragment nothing else."""
import os, sys
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'selftest_terms.py')).read()
head = src.split('def rb(')[0] + 'def rb(' + src.split('def rb(')[1].split('\n    return eq(x,y),xv==yv')[0] + '\n    return eq(x,y),xv==yv\n'
exec(head)
import z3
from vcg import lia
UN = {'udiv','urem','mul','sdiv','srem','or','xor','and','shl','lshr','ashr'}
def exact(t, m={}):
    if t.op in UN and not (t.op in ('and','shl','lshr','udiv','urem') and (t.a[1].op == 'c' or (t.op=='and' and t.a[0].op=='c')) and not (t.op in ('shl',) and t.a[1].a>=t.w) and not(t.op in('udiv','urem') and not t.a[1].a)):
        return False
    return all(exact(c) for c in children(t))
n = ne_ = 0
for it in range(int(sys.argv[1]) if len(sys.argv) > 1 else 3000):
    env = {var('a8%d'%k,8):random.getrandbits(8) for k in range(2)}
    env.update({var('a16%d'%k,16):random.getrandbits(16) for k in range(2)})
    t, v = rnd(3, random.choice([8,16]), env)
    s = z3.Solver()
    s.add(lia.conv(t)*0 == 0)
    seen = set(); side = lia.side_of(t, seen)
    s.add(*side)
    for k, x in env.items():
        s.add(lia.conv(k) == x)
    s.push(); s.add(lia.conv(t) == v)
    assert s.check() == z3.sat, (show(t), env, v)
    s.pop()
    n += 1
    if exact(t):
        s.add(lia.conv(t) != v)
        assert s.check() == z3.unsat, (show(t), env, v)
        ne_ += 1
print('lia ok', n, 'exact', ne_)
