import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
import random
from vcg.terms import *
# differential test of smart constructors against direct evaluation
import vcg.terms as TT
random.seed(1)
def rnd(depth,w,env):
    if depth==0 or random.random()<0.15:
        if random.random()<0.4: 
            v=random.choice([0,1,2,3,4,7,8,15,16,255,-1,-8,random.getrandbits(w)])&((1<<w)-1)
            return const(v,w), v
        k=random.choice([x for x in env if x.w==w]); return k, env[k]
    m=(1<<w)-1
    o=random.choice(['add','sub','mul','udiv','urem','sdiv','srem','shl','lshr','ashr','and','or','xor','ite','zx','sx','ext','cat'])
    if o=='ite':
        c,cv=rb(depth-1,env); x,xv=rnd(depth-1,w,env); y,yv=rnd(depth-1,w,env)
        return ite(c,x,y),(xv if cv else yv)
    if o in('zx','sx'):
        if w==8: return rnd(depth-1,w,env)
        x,xv=rnd(depth-1,8,env)
        return (zext(x,w),xv) if o=='zx' else (sext(x,w),sgn(xv,8)&m)
    if o=='ext':
        W=16
        if w==16: return rnd(depth-1,w,env)
        x,xv=rnd(depth-1,16,env); lo=random.choice([0,1,4,8])
        return ext(x,lo,w),(xv>>lo)&m
    if o=='cat':
        if w==8: return rnd(depth-1,w,env)
        x,xv=rnd(depth-1,8,env);y,yv=rnd(depth-1,8,env)
        return cat(x,y),(xv<<8)|yv
    x,xv=rnd(depth-1,w,env);y,yv=rnd(depth-1,w,env)
    t=TT._mk(o if o not in('add','sub') else 'mul',(var('qx',w),var('qy',w)),w)
    if o=='add': v=(xv+yv)&m
    elif o=='sub': v=(xv-yv)&m
    else: v=evaluate(t,{var('qx',w):xv,var('qy',w):yv},{},{})
    return TT.BIN[o](x,y),v
def rb(depth,env):
    w=random.choice([8,16])
    x,xv=rnd(depth,w,env);y,yv=rnd(depth,w,env)
    o=random.choice(['eq','ult','ule','slt','sle','ne','not','band','bor'])
    if o in('not','band','bor') and depth>0:
        a,av=rb(depth-1,env);b,bv=rb(depth-1,env)
        if o=='not': return bnot(a),not av
        return (band(a,b),av and bv) if o=='band' else (bor(a,b),av or bv)
    if o=='ult': return ult(x,y),xv<yv
    if o=='ule': return ule(x,y),xv<=yv
    if o=='slt': return slt(x,y),sgn(xv,w)<sgn(yv,w)
    if o=='sle': return sle(x,y),sgn(xv,w)<=sgn(yv,w)
    if o=='ne': return ne(x,y),xv!=yv
    return eq(x,y),xv==yv
vs=[var('a',8),var('b',8),var('s',8,0,5),var('A',16),var('B',16),var('S',16,3,40),var('U',16,256,300)]
bad=0
for it in range(200000):
    env={v:random.randint(v.lb,v.ub) for v in vs}
    t,v=rb(3,env) if it&1 else rnd(4,random.choice([8,16]),env)
    r=evaluate(t,env,{},{})
    if r!=v: print('BAD',t,r,v,env); bad+=1
    if t.w and not(t.lb<=v<=t.ub): print('BOUND',t,t.lb,t.ub,v); bad+=1
    if bad>5: break
    # subst identity
    if it%10==0:
        m={vs[0]:const(env[vs[0]],8),vs[3]:const(env[vs[3]],16)}
        assert evaluate(subst(t,m),env,{},{})==v
print('done',bad)
