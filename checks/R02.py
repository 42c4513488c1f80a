"""Typed setters write exactly the addressed number."""
import ir, refl
from refl import *
from drv import *

MIN = 1500
SET = {'Int': ('int64', 'Integer'), 'UInt': ('uint64', 'UnsignedInteger'), 'Float': ('double', 'FloatingPoint')}
ERR = ['None', 'SignMismatch', 'OutOfRange', 'InvalidFormat', 'InvalidDestination', 'EmptyInput', 'ShortInput']
CL = ['T', 'T2', 'X', 'Tm<float>', 'Big']


def src():
    t = [HEAD, layout_src(), '#include "datas/reflector.cpp"']
    for cl in CL:
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (cid(cl), cl))
        for f, (ty, _) in SET.items():
            t.append('extern "C" int %s_%s(%s *t, size_t id, %s v, size_t sub) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue%s(id, v, sub); }'
                     % (f, cid(cl), cl, ty, cl, f))
            t.append('extern "C" int h%s_%s(%s *t, uint32 h, %s v, size_t sub) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue%s(JenHash(h), v, sub); }'
                     % (f, cid(cl), cl, ty, cl, f))
            t.append('extern "C" int d%s_%s(%s *t, size_t id, %s v) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue%s(id, v); }'
                     % (f, cid(cl), cl, ty, cl, f))
    t.append('extern "C" void errs(uint64 *o) { %s }' % ' '.join('o[%d] = (uint64)Reflector::ErrorType::%s;' % (k, n) for k, n in enumerate(ERR)))
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow through the typed setters, per member, setter and index: on the one matching kind exactly the addressed element receives the value '
           'and every other byte of the object keeps its own bits; otherwise no store to the object is reachable and the error says why.')
    c.assumption('member kinds as instantiated; tables as decided by R01')
    m = ir.unit(text=src(), name='R02')
    ctx = S(m).c

    def new(mem=None):
        s = S(m, ctx)
        guards(s)
        if mem is not None:
            s.mem = mem.copy()
        return s
    s = new()
    s.buf('o')
    s.run('errs', [Ptr('o')])
    E = {n: ctx.cval(Word(s.outbits('o', 8 * k, 8))) for k, n in enumerate(ERR)}
    lay = layout(new)

    def attempt(base, fn, *args):
        s = new(base)
        s.buf('t')
        s.it.record_access = True
        s.run(fn, [Ptr('t')] + list(args))
        st = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 't']
        return s, st

    def unchanged(key, s, st, codes, cond=1):
        r = ctx.cval(s.ret)
        c.ob(key + ' is refused', r in [E[x] for x in codes], 'returns %r' % r, 'Reflector::SetReflectedValue*')
        c.ob(key + ' changes nothing', not st, 'stores at %s' % [ir.loc_str(e.loc) for e in st][:3], ir.loc_str(st[0].loc) if st else '')

    def written(key, s, st, off, n, bits, size):
        c.ob(key + ' succeeds', ctx.cval(s.ret) == E['None'], 'returns %r' % ctx.cval(s.ret), 'Reflector::SetReflectedValue*')
        c.ob(key + ' stores the value', *s.cmp(s.outbits('t', off, n), bits), 'Reflector::SetReflectedValue*')
        bad = [e for e in st if e.ptr.sym or e.ptr.off < off or not isinstance(e.size, int) or e.ptr.off + e.size > off + n]
        c.ob(key + ' touches nothing else', not bad, 'stores %s' % [(e.ptr, e.size) for e in bad][:3], ir.loc_str(bad[0].loc) if bad else '')

    for cl in CL:
        ms = CLASSES[cl]
        s = new()
        s.run('tab_' + cid(cl))
        base = s.out
        for f, (vt, kind) in SET.items():
            with c.part('%s %s' % (cl, f)):
                v = s.arg('value', 64)

                def bits(n):
                    if f == 'Float' and n == 4:
                        return ctx.op(32, 'fptrunc', v)
                    return v[:8 * n]
                for k, (nm, ty, sub, ct, num, th) in enumerate(ms):
                    array = ty in ('Array', 'Vector')
                    n = SIZE.get(ct, 8)
                    h = ctx.cw(jenkins(nm), 32)
                    i = ctx.cw(k, 64)
                    match = (sub if array else ty) == kind
                    count = num if array else 1
                    for x in range(count) if count < 9 else sorted({0, 1, 9, 127, 128, 255, 256, count - 1} & set(range(count))):
                        key = '%s(%s::%s, %d)' % (f, cl, nm, x)
                        for how, fn, a in (('id', f, i), ('name', 'h' + f, h)) + ((('default index', 'd' + f, i),) if x == 0 else ()):
                            if how == 'name' and x not in (0, count - 1):
                                continue
                            s, st = attempt(base, '%s_%s' % (fn, cid(cl)), a, v, *([ctx.cw(x, 64)] if fn[0] != 'd' else []))
                            if match:
                                written(key + ' by ' + how, s, st, lay[cl][nm] + x * n, n, bits(n), lay[cl][''])
                            else:
                                unchanged(key + ' by ' + how, s, st, ['InvalidDestination'])
                    # every index past the end
                    idx = ctx.inp('index', 64)
                    s, st = attempt(base, '%s_%s' % (f, cid(cl)), i, v, idx)
                    past = ctx.ult(idx, ctx.cw(count, 64)) ^ 1
                    key = '%s(%s::%s, index past the end)' % (f, cl, nm)

                    def reach(e):
                        x = past
                        for y in e.cond:
                            x = ctx.AND(x, y)
                        return x
                    bad = [e for e in st if not ctx.same(reach(e), 0)]
                    c.ob(key + ' changes nothing', not bad, 'store reachable', ir.loc_str(bad[0].loc) if bad else '')
                    ok = 0
                    for code in ['OutOfRange'] + ([] if match else ['InvalidDestination']):
                        ok = ctx.OR(ok, ctx.eq(s.ret, ctx.cw(E[code], len(s.ret))))
                    c.ob(key + ' is refused', ctx.same(ctx.AND(past, ok ^ 1), 0), 'other result', 'Reflector::SetReflectedValue*')
                for bad in (len(ms), len(ms) + 1, 255, 256, 65536, 1 << 32, (1 << 32) + 1, (1 << 64) - 1):
                    s, st = attempt(base, '%s_%s' % (f, cid(cl)), ctx.cw(bad, 64), v, ctx.cw(0, 64))
                    unchanged('%s(%s, member %d)' % (f, cl, bad), s, st, ['InvalidDestination'])
                for bad in (0, jenkins('no such name'), jenkins(cl), jenkins(ms[0][0]) ^ 1, jenkins(ms[-1][0]) ^ 0x80000000):
                    s, st = attempt(base, 'h%s_%s' % (f, cid(cl)), ctx.cw(bad, 32), v, ctx.cw(0, 64))
                    if cl == 'X' and bad == 0:
                        continue
                    unchanged('%s(%s, hash %#x)' % (f, cl, bad), s, st, ['InvalidDestination'])
    with c.part('aliases'):
        s = new()
        s.run('tab_X')
        base = s.out
        for f, (vt, kind) in SET.items():
            for k, al in ((1, 'other name'), (3, 'alias2'), (5, 'last alias')):
                v = s.arg('value', 64)
                nm, ty, _, ct, _, _ = X[k]
                s, st = attempt(base, 'h%s_X' % f, ctx.cw(jenkins(al), 32), v, ctx.cw(0, 64))
                key = '%s(X alias "%s")' % (f, al)
                if ty == kind:
                    written(key, s, st, lay['X'][nm], SIZE[ct], v[:8 * SIZE[ct]], 0)
                else:
                    unchanged(key, s, st, ['InvalidDestination'])
    c.unit('R02 driver (reflector.cpp)', m)
