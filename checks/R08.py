"""Registration: classes and enums are found by their name's hash once registered, whatever the order."""
import itertools
import ir
from refl import *
from drv import *

MIN = 300
CN = ['C0', 'C1', 'Second', 'A_class_with_a_rather_long_name_to_hash', 'C1_', 'c1', 'Tq<int>', 'BQ']
EN = {'F0': [('f0a', 0), ('f0b', 5)], 'F1': [('f1a', 1), ('f0x', 6)], 'Mode': [('on', 2), ('off', 3), ('mixed', 9)], 'f1': [('aa', 11), ('bb', 12)], 'An_enum_with_a_rather_long_name_to_hash': [('x1', 0x7ffffff1), ('x2', 0x7ffffff2)]}
DECL = ''
for _k, _n in enumerate(CN[:6]):
    DECL += 'struct %s { int32 m%d; uint8 n%d; void ReflectorTag(); };\nREFLECTOR_CREATE(%s, 1, VARNAMES, m%d, n%d)\n' % (_n, _k, _k, _n, _k, _k)
DECL += '''template <class T> struct Tq { T tq; void ReflectorTag(); };
REFLECTOR_CREATE((Tq<int>), 2, VARNAMES, TEMPLATE, tq)
using Q1 = BitMemberDecl<0, 3>; using Q2 = BitMemberDecl<1, 5>;
REFLECTOR_CREATE((BitFieldType<uint16, Q1, Q2>), BITFIELD, 1, VARNAMES, Q1, Q2)
''' if 0 else '''template <class T> struct Tq { T tq; void ReflectorTag(); };
REFLECTOR_CREATE((Tq<int>), 2, VARNAMES, TEMPLATE, tq)
'''
CN = CN[:7]
for _n, _v in EN.items():
    DECL += 'REFLECTOR_CREATE(%s, ENUM, 2, CLASS, 32, %s)\n' % (_n, ', '.join('%s = %d' % x for x in _v))
ALL = CN + list(EN)
# what is registered by which call
CALLS = {'one_%d' % k: [n] for k, n in enumerate(ALL)}
CALLS.update(all=ALL, back=ALL[::-1], twice=[ALL[3], ALL[3 + len(CN)]], none=[], mixed=[ALL[len(CN)], ALL[0], ALL[len(CN) + 2], ALL[1], ALL[4]])
OLD = {'old': [ALL[1], ALL[len(CN) + 1], ALL[2]]}


def src():
    t = [PRE, HEAD, DECL, QUIET, '#include <new>']
    t.append('struct Hold { int8 pre; %s };' % ' '.join('%s mem%d;' % (n, k) for k, n in enumerate(ALL)))
    t.append('REFLECTOR_CREATE(Hold, 1, VARNAMES, pre, %s)' % ', '.join('mem%d' % k for k in range(len(ALL))))
    for f, l in CALLS.items():
        t.append('extern "C" void reg_%s() { RegisterReflectedTypes<%s> r; (void)r; }' % (f, ', '.join(l)))
    t.append('extern "C" void reg_old() { REFLECTOR_REGISTER(%s) }' % ', '.join(OLD['old']))
    t.append('''struct ReflectedInstanceFriend : ReflectedInstance { ReflectedInstanceFriend(const ReflectedInstance &i) : ReflectedInstance(i) {} const void *at() const { return constInstance; } const reflectorStatic *cls() const { return rfStatic; } };
extern "C" void sub(const Hold *t, uint32 h, const void **o) { ReflectorWrap<const Hold> w(t); const Reflector &r = w; ReflectedInstanceFriend p(r.GetReflectedSubClass(JenHash(h))); o[0] = p.at(); o[1] = p.cls(); }
extern "C" int set(Hold *t, uint32 h, const char *v, size_t n) { ReflectorWrap<Hold> w(t); return (int)w.SetReflectedValue(JenHash(h), es::string_view(v, n)); }
extern "C" void get(const Hold *t, uint32 h, std::string *o) { ReflectorWrap<const Hold> w(t); new (o) std::string(w.GetReflectedValue(JenHash(h))); }
extern "C" void lay(uint64 *o) { %s }''' % ' '.join('o[%d] = offsetof(Hold, mem%d);' % (k, k) for k in range(len(ALL))))
    for k, n in enumerate(CN):
        t.append('extern "C" const void *tab_%d() { return GetReflectedClass<%s>(); }' % (k, n))
    t.append('extern "C" const void *tab_hold() { return GetReflectedClass<Hold>(); }')
    return '\n'.join(t)


def run(c):
    c.rule('Points-to dataflow over histories of registrations: after each history the sub class of every member is the table of exactly its class if that was registered and empty otherwise; the texts of every '
           'registered enum are converted to and from exactly its values and no text is taken for an enum that is not registered.')
    c.assumption('std::map as implemented by libstdc++ headers, tree rebalancing modelled')
    m = ir.unit(text=src(), name='R08')
    r = TextRig(m)
    x = r.ctx
    r.prepare(*r.statics())
    tabs = []
    for k in list(range(len(CN))) + ['hold']:
        s = r.new(constants=True)
        s.run('tab_%s' % k)
        r.base = s.out
        tabs.append(s.it.ptr(s.ret))
    zero = r.base
    s = r.new()
    s.buf('o')
    s.run('lay', [Ptr('o')])
    off = [x.cval(Word(s.outbits('o', 8 * k, 8))) for k in range(len(ALL))]
    n = len(ALL)
    W = 'RegisterReflectedType (datas/internal/reflector_reg.hpp)'
    H = [[], ['none'], ['all'], ['back'], ['all', 'back'], ['back', 'all', 'all'], ['twice', 'twice'], ['mixed'], ['mixed', 'all'], ['old'], ['old', 'mixed'], ['twice', 'old', 'back']]
    H += [['one_%d' % k] for k in range(n)]
    H += [['one_%d' % k for k in range(n)], ['one_%d' % k for k in reversed(range(n))], ['one_%d' % (k * 5 % n) for k in range(n)], ['one_%d' % (k * 7 % n) for k in range(n - 1)]]
    if c.tier == 'thorough':
        H += [['one_%d' % a, 'one_%d' % b] for a in range(n) for b in range(n)]
        H += [['one_%d' % k for k in p] for p in itertools.permutations((0, 1, 4, len(CN), len(CN) + 1, len(CN) + 3), 4)]
    vis = set()
    for h in H:
        key = ' + '.join(h) or 'nothing'
        with c.part(key):
            r.base = zero
            r.prepare(*('reg_' + f for f in h))
            done = {q for f in h for q in (OLD if f == 'old' else CALLS)[f]}
            for k, q in enumerate(ALL):
                hash_ = x.cw(jenkins('mem%d' % k), 32)
                if q in CN:
                    s = r.new()
                    s.buf('t'), s.buf('o')
                    s.run('sub', [Ptr('t'), hash_, Ptr('o')])
                    vis |= s.it.visited
                    p = [s.it.ptr(s.it.load(s.out, Ptr('o', 8 * j), ['p'], {})) for j in (0, 1)]
                    if q in done:
                        c.ob('%s: class %s is found' % (key, q), p == [Ptr('t', off[k]), tabs[k]], '%s instead of %s' % (p, [Ptr('t', off[k]), tabs[k]]), W)
                    else:
                        c.ob('%s: class %s is not found' % (key, q), all(y.base == 'null' for y in p), str(p), W)
                    continue
                vs = EN[q] if q in done and len(h) < 4 else EN[q][:1]
                for nm, v in vs + [(EN[list(EN)[0 if q != list(EN)[0] else 1]][0][0], None)]:
                    s = r.new(constants=True)
                    s.buf('t')
                    mm, ret = s.run('set', [Ptr('t'), hash_, text(s, 'txt', nm), x.cw(len(nm), 64)])
                    vis |= s.it.visited
                    if v is None or q not in done:
                        outs = [s.out] if mm is not None else [y[1] for y in s.it.thrown]
                        kept = all(b == a for o in outs for b, a in zip([y for j in range(4) for y in s.it.cell(s.it.obj(o, 't'), off[k] + j, 't')], s.inbits('t', off[k], 4)))
                        c.ob('%s: %s is not stored into %s' % (key, nm, q), kept and (mm is None or x.cval(Word(ret)) != 0), 'it is stored', W)
                        continue
                    ok, d = s.cmp(s.outbits('t', off[k], 4), x.cw(v, 32)) if mm is not None else (False, 'throws')
                    c.ob('%s: %s of %s is stored' % (key, nm, q), ok and x.cval(Word(ret)) == 0, d, W)
                    s = r.new(constants=True)
                    s.buf('t'), s.buf('o')
                    s.setc('t', off[k], v, 4)
                    mm, _ = s.run('get', [Ptr('t'), hash_, Ptr('o')])
                    p = s.it.ptr(s.it.load(s.out, Ptr('o'), ['p'], {})) if mm is not None else None
                    l = x.cval(Word(s.outbits('o', 8, 8))) if mm is not None else None
                    b = bytes_at(s, s.out, p, l) if l is not None and l < 100 else None
                    c.ob('%s: %s of %s is printed' % (key, nm, q), b == nm.encode(), repr(b), W)
    c.unit('R08 driver (reflector_reg.hpp, reflector.cpp)', m, vis)
