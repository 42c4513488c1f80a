"""Hybrid ownership: linked storage is used in place and never freed, own storage exactly once."""
import ir
from drv import *

MIN = 60
PRE = '''#include "datas/allocator_hybrid.hpp"
#include "datas/deleter_hybrid.hpp"
#include "uni/common.hpp"
#include <vector>
#include <memory>
#include <new>
typedef es::allocator_hybrid_base H;
template <class T> using V = std::vector<T, es::allocator_hybrid<T>>;
struct Out { const void *data; size_t size; const void *buffer; };
template <class T> void rep(V<T> &v, Out *o) { o->data = v.data(); o->size = v.size(); o->buffer = v.get_allocator().buffer; }
struct Q { int a; short b; };
struct W { long a[3]; };
'''
TYPES = {'c': ('char', 1), 'i': ('int', 4), 'q': ('Q', 8), 'w': ('W', 24)}
N = 5
HIST = {  # name: (body, size, linked at the end)
    'link': ('H::LinkStorage(v, e, %d); rep(v, o);' % N, N, True),
    'range': ('H::LinkStorage(v, e, e + %d); rep(v, o);' % N, N, True),
    'empty': ('H::LinkStorage(v, e, size_t(0)); rep(v, o);', 0, False),
    'relink': ('H::LinkStorage(v, e + 1, 2); H::LinkStorage(v, e, %d); rep(v, o);' % N, N, True),
    'own_link': ('v.resize(3); H::LinkStorage(v, e, %d); rep(v, o);' % N, N, True),
    'move': ('V<T> w; H::LinkStorage(w, e, %d); v = std::move(w); rep(v, o);' % N, N, True),
    'movector': ('V<T> w; H::LinkStorage(w, e, %d); { V<T> x(std::move(w)); rep(x, o); }' % N, N, True),
    'swap': ('V<T> w; H::LinkStorage(w, e, %d); std::swap(v, w); rep(v, o);' % N, N, True),
    'shrink': ('H::LinkStorage(v, e, %d); v.pop_back(); rep(v, o);' % N, N - 1, True),
    'dispose': ('H::LinkStorage(v, e, %d); H::DisposeStorage(v); rep(v, o);' % N, 0, False),
    'reuse': ('H::LinkStorage(v, e, %d); H::DisposeStorage(v); v.push_back(T()); v.push_back(T()); v.push_back(T()); rep(v, o);' % N, 3, False),
    'own': ('v.resize(3); v.push_back(T()); rep(v, o);', 4, False),
    'own_dispose': ('v.resize(3); H::DisposeStorage(v); rep(v, o);', 0, False),
    'own_copy': ('V<T> w; w.resize(3); v = w; rep(v, o);', 3, False),
    'grow': ('H::LinkStorage(v, e, %d); v.push_back(T()); v.push_back(T()); rep(v, o);' % N, N + 2, False),
    'grow2': ('H::LinkStorage(v, e, %d); v.resize(%d); rep(v, o);' % (N, 3 * N), 3 * N, False),
    'empty_grow': ('H::LinkStorage(v, e, size_t(0)); v.push_back(T()); v.push_back(T()); rep(v, o);', 2, False),
    'own_empty': ('v.resize(3); H::LinkStorage(v, e, size_t(0)); rep(v, o);', 0, False),
    'relink_empty': ('H::LinkStorage(v, e, %d); H::LinkStorage(v, e, e); rep(v, o);' % N, 0, False),
    'dup': ('V<T> w; H::LinkStorage(w, e, %d); { V<T> x(w); rep(x, o); }' % N, N, None),
    'dup_over': ('V<T> w; H::LinkStorage(w, e, %d); v = w; rep(v, o);' % N, N, None),
    'dup_over_own': ('V<T> w; H::LinkStorage(w, e, %d); v.resize(2); v = w; rep(v, o);' % N, N, None),
    'dup_grow': ('H::LinkStorage(v, e, %d); { V<T> w(v); w.push_back(T()); } rep(v, o);' % N, N, True),
    'dup_assign': ('H::LinkStorage(v, e, %d); { V<T> w; w = v; w.push_back(T()); } rep(v, o);' % N, N, True),
}
DEL = {'default': ('es::deleter_hybrid d;', True), 'true': ('es::deleter_hybrid d(true);', True), 'false': ('es::deleter_hybrid d(false);', False)}


def src():
    t = [PRE]
    for k, (ty, n) in TYPES.items():
        for h, (body, _, _) in HIST.items():
            t.append('extern "C" void %s_%s(%s *e, Out *o) { typedef %s T; V<T> v; %s }' % (h, k, ty, ty, body))
        t.append('extern "C" void put_%s(%s *e, const %s *x) { V<%s> v; H::LinkStorage(v, e, %d); v[2] = *x; }' % (k, ty, ty, ty, N))
    for k, (body, _) in DEL.items():
        t.append('extern "C" void del_%s(Q *p, Q *q) { %s d(p); d(q); }' % (k, body))
        t.append('extern "C" void delc_%s(Q *p, Q *q) { %s d(p); d(q); }' % (k, body.replace('hybrid', 'hybrid_c')))
        t.append('extern "C" void uq_%s(Q *p, Q *q) { %s std::unique_ptr<Q, es::deleter_hybrid> u(p, d); std::unique_ptr<Q, es::deleter_hybrid> w(std::move(u)); w.reset(q); }' % (k, body))
        t.append('extern "C" void un_%s(Q *p, Q *q) { %s uni::Element<Q> u(p, d); uni::Element<Q> w; w = std::move(u); w.reset(q); }' % (k, body))
    t.append('extern "C" bool eq(void *a, void *b) { return es::allocator_hybrid<int>((int *)a) == es::allocator_hybrid<short>((short *)b); }')
    t.append('extern "C" bool ne(void *a, void *b) { return es::allocator_hybrid<int>((int *)a) != es::allocator_hybrid<short>((short *)b); }')
    return '\n'.join(t)


def run(c):
    c.rule('Points-to and footprint dataflow over container histories: after linking the container designates the linked buffer and its bytes are '
           'unchanged; no deallocation ever receives the linked buffer; every buffer obtained from operator new reaches operator delete exactly once; nothing is '
           'written outside the linked elements. Deleters release exactly when constructed to.')
    c.assumption('libstdc++ containers; operator new does not fail')
    m = ir.unit(text=src(), name='A01')

    def frees(s):
        r = []
        for e in s.it.events:
            if e.kind == 'call' and e.dem and (e.dem.startswith('operator delete') or e.dem == 'free'):
                r.append((e.dem, s.it.ptr(e.args[0]), e))
        return r
    for k, (ty, n) in TYPES.items():
        for h, (body, size, linked) in HIST.items():
            nm = 'vector<%s> %s' % (ty, h)
            with c.part(nm):
                s = S(m)
                s.buf('E')
                s.buf('O')
                s.it.record_access = True
                s.run('%s_%s' % (h, k), [Ptr('E'), Ptr('O')])
                fr = frees(s)
                news = [e.obj for e in s.it.events if e.kind == 'new']
                esc = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 'E' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > N * n)]
                badfree = [f for f in fr if f[1].base == 'E']
                c.ob(nm + ' never frees the linked buffer', not badfree, '%s(%s) at %s' % (badfree[0][0], badfree[0][1], ir.loc_str(badfree[0][2].loc)) if badfree else '',
                     'allocator_hybrid::deallocate')
                over = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base in news and not e.ptr.sym and s.it.obj(s.out, e.ptr.base).size is not None and e.ptr.off + e.size > s.it.obj(s.out, e.ptr.base).size]
                c.ob(nm + ' allocates enough', not over, 'access to %s with %s bytes' % (over[0].ptr, s.it.obj(s.out, over[0].ptr.base).size) if over else '', 'allocator_hybrid::allocate')
                c.ob(nm + ' frees its own storage once', sorted(str(f[1]) for f in fr if f[1].base != 'E' and f[1].base != 'null') == sorted(str(Ptr(b)) for b in news),
                     'allocated %s, freed %s' % (news, [str(f[1]) for f in fr]), 'allocator_hybrid')
                c.ob(nm + ' keeps the linked elements', s.cmp(s.outbits('E', 0, N * n), s.inbits('E', 0, N * n))[0] and not esc, 'linked bytes change', 'allocator_hybrid')
                c.ob(nm + ' size', *s.cmp(s.outbits('O', 8, 8), s.c.cw(size, 64)), 'allocator_hybrid')
                buf = s.it.i2p(Word(s.outbits('O', 16, 8))) if False else s.it.load(s.out, Ptr('O', 16), ['p'], {})
                data = s.it.load(s.out, Ptr('O'), ['p'], {})
                if linked:
                    if size:
                        c.ob(nm + ' uses the linked buffer in place', data == Ptr('E'), str(data), 'allocator_hybrid::allocate')
                    c.ob(nm + ' knows its buffer', buf == Ptr('E'), str(buf), 'allocator_hybrid')
                elif linked is None:
                    c.ob(nm + ' has storage of its own', data.base in news, str(data), 'allocator_hybrid::allocate')
                else:
                    c.ob(nm + ' is detached', buf == Ptr('null') and data.base != 'E', '%s %s' % (buf, data), 'allocator_hybrid')
        with c.part(ty + ' put'):
            s = S(m)
            s.buf('E'), s.buf('X')
            s.run('put_' + k, [Ptr('E'), Ptr('X')])
            valid = [i for i in range(n) if ty != 'Q' or i < 6]
            ok = all(s.cmp(s.outbits('E', 2 * n + i, 1), s.inbits('X', i, 1))[0] for i in valid)
            rest = all(s.cmp(s.outbits('E', i, 1), s.inbits('E', i, 1))[0] for i in range(N * n) if i // n != 2)
            c.ob('vector<%s> writes through to the linked buffer' % ty, ok and rest, 'element written: %s, others kept: %s' % (ok, rest), 'allocator_hybrid')
    for k, (_, release) in DEL.items():
        for fn, how in (('del', 'operator delete'), ('delc', 'free'), ('uq', 'operator delete'), ('un', 'operator delete')):
            with c.part(fn + k):
                s = S(m)
                s.buf('P'), s.buf('Q')
                s.run('%s_%s' % (fn, k), [Ptr('P'), Ptr('Q')])
                fr = [f for f in frees(s) if f[1].base != 'null']
                want = 2 if release else 0
                c.ob('%s(%s) releases %s' % ({'del': 'deleter_hybrid', 'delc': 'deleter_hybrid_c', 'uq': 'unique_ptr deleter', 'un': 'uni::Element deleter'}[fn], k, 'each object once' if want else 'nothing'),
                     [str(f[1]) for f in fr] == [str(Ptr(x)) for x in 'PQ' if want] and all(f[0].startswith(how) and not f[2].cond for f in fr), str([(f[0], str(f[1])) for f in fr]), 'deleter_hybrid')
    for fn in ('eq', 'ne'):
        for same in (0, 1):
            s = S(m)
            a = s.buf('A')
            b = a if same else s.buf('B')
            s.run(fn, [a, b])
            c.ob('allocators compare by buffer (%s, %s)' % (fn, 'same' if same else 'other'), s.ret[0] == (same if fn == 'eq' else 1 - same), '', 'allocator_hybrid operators')
    c.unit('A01 driver (allocator_hybrid.hpp, deleter_hybrid.hpp)', m)
