"""XML: what Save writes for a member, Load sets in the same member; foreign documents are harmless."""
import os
import ir
from refl import *
from drv import *
from textstream import chars, printf

MIN = 4000
MORE = '''
struct Leaf { int8 l0; double l1; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, VARNAMES, l0, l1)
struct Nameless { int16 o0; std::string o1; int32 o2[3]; Leaf o3; Leaf o4[2]; Vector o5; es::Flags<E8, uint32> o6; Vector2 o7[2]; es::Flags<E16, uint16> o8[2]; std::string o9[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Nameless, 0, o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)
struct Unreg { int32 u0; void ReflectorTag(); };
REFLECTOR_CREATE(Unreg, 1, VARNAMES, u0)
struct Mid { int16 m0; Leaf one; Leaf two[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Mid, 1, VARNAMES, m0, one, two)
struct Nest { int8 pre; Leaf leaf; Leaf many[12]; Mid mid; Mid mids[3]; B16 bit; B64 bits[4]; std::array<Leaf, 2> sa; Nameless nl; Nameless nls[2]; int8 post; };
REFLECTOR_CREATE(Nest, 1, EXTENDED, (, pre), (A, leaf, "the leaf"), (, many), (, mid), (A, mids, "the mids"), (D, bit, "bits"), (, bits), (, sa), (, nl), (, nls), (, post))
struct WithUnreg { int8 before; Unreg un; Unreg uns[2]; int8 after; };
REFLECTOR_CREATE(WithUnreg, 1, VARNAMES, before, un, uns, after)
using Nested = Nest;
'''
A = arr
CL = dict(CLASSES)
CL.update({
    'Leaf': [plain('l0', 'Integer', 'int8'), plain('l1', 'FloatingPoint', 'double')],
    'Nameless': [plain('o0', 'Integer', 'int16'), ('o1', 'String', 'None', None, 0, 0), arr('o2', 'Integer', 'int32', 3), plain('o3', 'Class', 'Leaf', 'Leaf'), arr('o4', 'Class', 'Leaf', 2, 'Leaf'),
                 vec('o5', 'FloatingPoint', 'float', 3), flag('o6', 'uint32', 'E8'), arr('o7', 'Vector', 'Vector2', 2, ('vec', 'FloatingPoint', 'float', 2)), arr('o8', 'EnumFlags', 'uint16', 2, 'E16'),
                 arr('o9', 'String', 'std::string', 2)],
    'Mid': [plain('m0', 'Integer', 'int16'), plain('one', 'Class', 'Leaf', 'Leaf'), arr('two', 'Class', 'Leaf', 2, 'Leaf')],
    'Nest': [plain('pre', 'Integer', 'int8'), plain('leaf', 'Class', 'Leaf', 'Leaf'), arr('many', 'Class', 'Leaf', 12, 'Leaf'), plain('mid', 'Class', 'Mid', 'Mid'), arr('mids', 'Class', 'Mid', 3, 'Mid'),
             plain('bit', 'BitFieldClass', 'uint16', 'B16'), arr('bits', 'BitFieldClass', 'uint64', 4, 'B64'), arr('sa', 'Class', 'Leaf', 2, 'Leaf'), plain('nl', 'Class', 'Nameless', 'Nameless'),
             arr('nls', 'Class', 'Nameless', 2, 'Nameless'), plain('post', 'Integer', 'int8')],
    'WithUnreg': [plain('before', 'Integer', 'int8'), plain('after', 'Integer', 'int8')],
})
for k, v in BITS.items():
    CL[k] = [(n, 'BitFieldMember', 'None', None, 0, 0) for n, _ in v]
USE = ['T', 'T2', 'X', 'Z', 'Tm<uint16>', 'Tm<int64>', 'B16', 'BX32', 'Nameless', 'Nest', 'WithUnreg']
HOW = {'v1': ('Save(w, n, top)', 'Load(w, n, top)'), 'v2': ('SaveV2(w, n, top)', 'LoadV2(w, n, top)'),
       'attributes': ('SaveV2a(w, n, opts(top))', 'LoadV2(w, n, top)')}
# documents that were not saved from the class: (class, builder)
FOREIGN = {
    'unknown element': ('X', 'E(n, "nothing").text().set("1");'),
    'unknown element with attributes': ('X', 'auto e = E(n, "nothing"); A(e, "x", "1"); A(e, "plain", "2");'),
    'unknown attribute': ('X', 'A(n, "nothing", "1");'),
    'unknown element with an index': ('X', 'A(E(n, "nothing-3"), "x", "1");'),
    'attribute with index of a plain member': ('X', 'A(n, "plain-3", "1");'),
    'element with attributes for a plain member': ('X', 'A(E(n, "plain"), "x", "1");'),
    'nested elements for a plain member': ('X', 'E(E(n, "plain"), "x");'),
    'element with attributes and index for a plain member': ('X', 'A(E(n, "plain-7"), "x", "1");'),
    'text between the elements': ('X', 'n.append_child(pugi::node_pcdata).set_value("hello"); n.append_child(pugi::node_cdata).set_value("-");'),
    'comment': ('X', 'n.append_child(pugi::node_comment);'),
    'hash of nothing': ('X', 'A(E(n, "h:"), "x", "1"); A(n, "h:12345", "1");'),
    'index of nothing': ('X', 'A(E(n, "-"), "x", "1"); A(n, "-1", "1"); E(n, "h");'),
    'too large class index': ('Nest', 'auto e = E(n, "many-12"); A(e, "l0", "1"); A(E(e, "l1"), "x", "1");'),
    'huge class index': ('Nest', 'A(E(n, "many-99999999999"), "l0", "1");'),
    'negative class index': ('Nest', 'A(E(n, "many--1"), "l0", "1"); A(E(n, "mids-x"), "m0", "1");'),
    'class index of a single class': ('Nest', 'A(E(n, "leaf-5"), "l0", "1");'),
    'attribute of a class member': ('Nest', 'A(n, "leaf", "1"); A(n, "many", "1"); A(n, "many-2", "1");'),
    'old array item too far': ('Nest', 'auto e = E(n, "many"); A(E(e, "i:12"), "l0", "1"); E(E(e, "i:12"), "l0").text().set("1"); E(E(e, "i:99999999"), "l0").text().set("1");'),
    'old array item negative': ('Nest', 'E(E(E(n, "many"), "i:-1"), "l0").text().set("1");'),
    'old array with short names': ('Nest', 'auto e = E(n, "many"); E(E(e, "i"), "l0").text().set("1"); E(E(e, "i:"), "l0").text().set("1");'),
    'old array with text': ('Nest', 'auto e = E(n, "many"); e.append_child(pugi::node_pcdata).set_value("hello"); e.append_child(pugi::node_comment);'),
    'unregistered class': ('WithUnreg', 'auto e = E(n, "un"); A(e, "u0", "1"); E(e, "u0").text().set("1"); e = E(n, "uns"); A(e, "u0", "1"); E(E(e, "i:1"), "u0").text().set("1"); A(E(n, "uns-1"), "u0", "1");'),
    'vector with unknown axis': ('T', 'A(E(n, "v3"), "q", "1"); A(E(n, "v2"), "z", "1"); A(E(n, "v2"), "", "1");'),
    'vector with index': ('T', 'A(E(n, "v3-1"), "x", "1"); A(E(n, "v3-x"), "x", "1");'),
    'vector array without index': ('T2', 'A(E(n, "av3"), "x", "1"); A(E(n, "av3-2"), "x", "1"); A(E(n, "av3--1"), "x", "1"); A(E(n, "av3-0"), "w", "1");'),
    'flags array without index': ('T2', 'A(E(n, "afl8"), "e8a", "1"); A(E(n, "afl8-2"), "e8a", "true");'),
    'other attributes of flags': ('T', 'A(E(n, "fl8"), "nothing", "1"); A(E(n, "fl8-1"), "e8a", "1"); A(E(n, "fl16"), "", "");'),
    'empty': ('T', ''),
}
# where the strings are that can be attributes
STRINGS = {'T2': ('splaces', 1), 'Nameless': ('oplaces', 1), 'Nest': ('oplaces', 3)}
V12 = ('v1', 'v2')
# documents that name only some members: (how, class, its own element is looked up, builder, what may be set, what must be)
SOME = {
    'another class': (V12, 'X', 1, 'auto e = E(n, "Other"); E(e, "plain").text().set("3"); A(e, "plain", "3");', {}),
    'a member in place of the class': (V12, 'X', 1, 'E(n, "plain").text().set("3"); A(n, "plain", "3");', {}),
    'another class first': (V12, 'X', 1, 'E(E(n, "Other"), "plain").text().set("3"); E(E(n, "X"), "plain").text().set("4"); E(E(n, "Another"), "plain").text().set("5");', {'plain': '4'}),
    'another class inside': (('v1',), 'X', 0, 'E(E(n, "X"), "plain").text().set("4");', {}),
    'items in other order': (('v1',), 'Nest', 0, 'auto e = E(n, "many"); E(E(e, "i:3"), "l0").text().set("33"); E(E(e, "i:1"), "l0").text().set("11"); E(E(e, "i:11"), "l1").text().set("12");',
                             {'many[3].l0': '33', 'many[1].l0': '11', 'many[11].l1': '12'}),
    'elements in other order': (('v2',), 'Nest', 0, 'A(E(n, "many-3"), "l0", "33"); A(E(n, "many-1"), "l0", "11"); A(E(n, "many-11"), "l1", "12"); A(n, "pre", "5");',
                                {'many[3].l0': '33', 'many[1].l0': '11', 'many[11].l1': '12', 'pre': '5'}),
    'a deep member': (('v2',), 'Nest', 0, 'A(E(E(n, "mids-2"), "two-1"), "l0", "7"); A(E(n, "mid"), "m0", "8");', {'mids[2].two[1].l0': '7', 'mid.m0': '8'}),
    'a deep member of items': (('v1',), 'Nest', 0, 'E(E(E(E(E(n, "mids"), "i:2"), "two"), "i:1"), "l0").text().set("7"); E(E(n, "mid"), "m0").text().set("8");', {'mids[2].two[1].l0': '7', 'mid.m0': '8'}),
    'items of unknown names': (('v1',), 'Nest', 0, 'auto e = E(n, "many"); E(E(e, "i:1"), "l0").text().set("1"); E(E(e, "x:2"), "l0").text().set("2"); E(E(e, "i:12"), "l0").text().set("3");', {'many[1].l0': '1', 'many[2].l0': (None, '2')}),
    'items of unknown names and elements': (('v1',), 'Nest', 0, 'auto e = E(n, "none"); E(E(e, "i:1"), "l0").text().set("1"); e = E(n, "leaf"); E(e, "l7").text().set("2"); E(e, "l1").text().set("3"); E(n, "l0").text().set("4");', {'leaf.l1': '3'}),
    'attributes and elements': (('v2',), 'Nest', 0, 'A(n, "l0", "1"); A(n, "post", "2"); auto e = E(n, "leaf"); A(e, "l7", "3"); A(e, "l1", "4"); A(e, "post", "5");', {'post': '2', 'leaf.l1': '4'}),
    'some axes': (('v2',), 'T', 0, 'auto e = E(n, "v3"); A(e, "z", "3"); A(e, "x", "1");', {'v3[2]': '3', 'v3[0]': '1'}),
    'some axes of items': (('v2',), 'T2', 0, 'A(E(n, "av3-1"), "y", "3"); A(E(n, "av3-0"), "z", "1");', {'av3[1][1]': '3', 'av3[0][2]': '1'}),
    'some flags': (('v2',), 'T', 0, 'auto e = E(n, "fl8"); A(e, "e8a", "1"); A(e, "e8b", "false"); A(e, "e8d", "true"); A(E(n, "fl16"), "e16a", "0");', {'fl8': 'e8a|e8d', 'fl16': 'NULL'}),
    'flags in other words': (('v2',), 'T', 0, 'auto e = E(n, "fl8"); A(e, "e8a", "yes"); A(e, "e8b", "no"); A(e, "e8c", "True"); A(e, "e8d", "Y"); e = E(n, "fl32"); A(e, "e8a", "FALSE"); A(e, "e8b", "1"); A(e, "e8d", "t");',
                             {'fl8': 'e8a|e8c|e8d', 'fl32': 'e8b|e8d'}),
    'some flags of items': (('v2',), 'T2', 0, 'A(E(n, "afl8-1"), "e8b", "1"); A(E(n, "afl8-0"), "e8c", "1");', {'afl8[1]': 'e8b', 'afl8[0]': 'e8c'}),
    'an empty document': (V12, 'Nest', 1, '', {}),
    'an empty element': (V12, 'Nest', 1, 'E(n, "Nest");', {}),
}
SRC = PRE + HEAD + 'REFLECTOR_CREATE(E8x, ENUM, 2, CLASS, 8, e8x)\n' + QUIET + MORE + '#include "' + os.path.join(os.path.dirname(os.path.abspath(ir.__file__)), 'pugimodel.inl') + '"\n' + r'''
#include "datas/reflector_xml.cpp"
#include <new>
extern "C" {
void who(const Reflector *r, const void **o) { auto i = r->GetReflectedInstance(); o[0] = i.constInstance; o[1] = i.rfStatic; }
size_t rtsize() { return sizeof(reflType); }
size_t rtid(const reflType *t) { return t->ID; }
uint32 rthash(const reflType *t) { return t->valueNameHash.raw(); }
void reg() { RegisterReflectedTypes<E8, E16, E32, E64, EF, Sub, B16, B64, Leaf, Mid, Nameless> r; (void)r; }
void *newdoc() { return pugi::model::node(pugi::node_document); }
void *newelement() { return pugi::model::add(pugi::model::node(pugi::node_document), pugi::node_element); }
const char *name(const pugi::xml_node_struct *n) { return n->name; }
const void *parent(const pugi::xml_node_struct *n) { return n->parent; }
int places(const pugi::xml_node_struct *n, const char *s) { int r = 0; for (auto a = n->afirst; a; a = a->next) r += pugi::model::same(a->name, s);
  for (auto c = n->first; c; c = c->next) r += (c->type == pugi::node_element && pugi::model::same(c->name, s) ? 256 : 0) + places(c, s); return r; }
int splaces(const pugi::xml_node_struct *n) { return places(n, "str"); }
int oplaces(const pugi::xml_node_struct *n) { char t[16]; snprintf(t, sizeof(t), "h:%X", JenHash("o1").raw()); return places(n, t); }
bool parsed(const pugi::xml_node_struct *n) { if (n->parsed) return true; for (auto c = n->first; c; c = c->next) if (parsed(c)) return true; return false; }
}
static ReflectorXMLUtil::flag_type opts(bool top) { ReflectorXMLUtil::flag_type f; f.Set(ReflectorXMLUtil::Flags_ClassNode, top); f.Set(ReflectorXMLUtil::Flags_StringAsAttribute, true); return f; }
static pugi::xml_node E(pugi::xml_node n, const char *s) { return n.append_child(s); }
static void A(pugi::xml_node n, const char *s, const char *v) { n.append_attribute(s).set_value(v); }
''' + ''.join('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }\n' % (cid(c), c) for c in CL if c not in ('Big', 'Unreg')) + \
    ''.join('extern "C" const char *cname_%s() { return GetReflectedClass<%s>()->className; }\n' % (cid(c), c) for c in USE) + ''.join(
        '''extern "C" void *save_%(k)s_%(i)s(const %(c)s *t, pugi::xml_node_struct *p, bool top) { ReflectorWrap<const %(c)s> w(t); pugi::xml_node n(p); return ReflectorXMLUtil::%(s)s.internal_object(); }
extern "C" void *load_%(k)s_%(i)s(%(c)s *t, pugi::xml_node_struct *p, bool top) { ReflectorWrap<%(c)s> w(t); pugi::xml_node n(p); return ReflectorXMLUtil::%(l)s.internal_object(); }
''' % dict(k=k, i=cid(c), c=c, s=s, l=l) for c in USE for k, (s, l) in HOW.items()) + ''.join(
        'extern "C" void *foreign_%d() { pugi::xml_node n(pugi::model::add(pugi::model::node(pugi::node_document), pugi::node_element)); %s return n.internal_object(); }\n' % (k, b) for k, (c, b) in enumerate(FOREIGN.values())) + ''.join(
        'extern "C" void *some_%d() { pugi::xml_node n(pugi::model::add(pugi::model::node(pugi::node_document), pugi::node_element)); %s return n.internal_object(); }\n' % (k, v[3]) for k, v in enumerate(SOME.values()))
LAY = ['Sub', 'Leaf', 'Mid', 'Nameless', 'B16', 'B64']


def lay_src():
    """where the class members are"""
    t = ''
    for c in CL:
        ms = [(n, th) for n, ty, sub, ct, num, th in CL[c] if 'Class' in ty or 'Class' in (sub or '')]
        if ms:
            t += 'extern "C" void lay_%s(uint64 *o) { %s }\n' % (cid(c), ' '.join('o[%d] = offsetof(%s, %s); o[%d] = sizeof(%s);' % (2 * k, c, n, 2 * k + 1, th) for k, (n, th) in enumerate(ms)))
    return t


class Rig:
    def __init__(self, c):
        self.c = c
        self.m = ir.unit(text=SRC + lay_src(), name='X01', passes=ir.LIGHT, flags=['-fno-inline', '-fno-access-control'])
        self.seen = set()
        self.r = TextRig(self.m)
        self.x = self.r.ctx
        self.r.prepare(*self.r.statics())
        self.tab = {}
        for k in CL:
            if k in ('Big', 'Unreg'):
                continue
            s = self.r.new(constants=True)
            s.run('tab_' + cid(k))
            self.r.base = s.out
            self.tab[(s.it.ptr(s.ret).base, s.it.ptr(s.ret).off)] = k
        self.r.prepare('reg')
        self.cname = {}
        for k in USE:
            s = self.r.new()
            s.run('cname_' + cid(k))
            self.cname[k] = cstr(s, s.out, s.it.ptr(s.ret))
        self.lay = {}
        for k in CL:
            ms = [n for n, ty, sub, ct, num, th in CL[k] if 'Class' in ty or 'Class' in (sub or '')]
            if ms:
                s = self.r.new()
                s.buf('o')
                s.run('lay_' + cid(k), [Ptr('o')])
                for j, n in enumerate(ms):
                    self.lay[k, n] = tuple(self.x.cval(Word(s.outbits('o', 16 * j + 8 * h, 8))) for h in (0, 1))
        s = self.r.new()
        s.run('rtsize')
        self.rtsize = self.x.cval(Word(s.ret))

    def ask(self, it, mem, fn, *args):
        m, r = it.call(self.m.funcs[fn], list(args), mem.copy())
        return r

    def new(self, mem=None, pattern=0):
        s = self.r.new()
        if mem is not None:
            s.mem = mem.copy()
        s.it.record_access = True
        s.gets, s.sets, s.parsed = [], [], []
        x = self.x

        def inst(it, mem, p):
            m = mem.copy()
            m.o['who'] = Obj('who', 16)
            m.own.add('who')
            it.nonnull.add('who')
            m, _ = it.call(self.m.funcs['who'], [p, Ptr('who')], m)
            a, t = (it.ptr(it.load(m, Ptr('who', 8 * k), ['p'], {})) for k in (0, 1))
            return a, self.tab.get((t.base, t.off))

        def get(it, dem, i, args, mem):
            a, cl = inst(it, mem, it.ptr(args[1]))
            n = [x.cval(w) for w in args[2:]]
            if cl is None or None in n or a.sym:
                raise prov.Unsupported('text of an unknown member')
            key = (a.off, cl) + tuple(n)
            s.gets.append((a.base, key, i))
            mem_ = CL[cl][n[0]] if n[0] < len(CL[cl]) else None
            t = [tuple(b) for b in tokenbytes(x, ('get',) + key)]
            fl = mem_ is not None and (mem_[1] == 'EnumFlags' and len(n) == 2 or mem_[2] == 'EnumFlags' and len(n) == 3)
            if fl:
                t = [tuple(x.cw(b, 8)) for b in (b'true' if n[-1] in self.on(mem_, n[1] if len(n) == 3 else 0, pattern) else b'false')]
            r = it.ptr(args[0])
            it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), {})
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], x.cw(len(t), 64), {})
            it.obj(mem, r.base)
            o = mem.w(r.base)
            for k, b in enumerate(t + [(0,) * 8]):
                o.cells[r.off + 16 + k] = b
            return None

        def put(it, dem, i, args, mem):
            a, cl = inst(it, mem, it.ptr(args[0]))
            # the table entry is passed in registers or by address
            if isinstance(args[1], Ptr):
                at, rest = args[1], args[2:]
            else:
                at, bits, rest = Ptr('rt'), [], list(args[1:])
                while len(bits) < 8 * self.rtsize:
                    bits += list(rest.pop(0))
                mem_ = mem.copy()
                o = mem_.o['rt'] = Obj('rt', self.rtsize)
                mem_.own.add('rt')
                for k in range(self.rtsize):
                    o.cells[k] = tuple(bits[8 * k:8 * k + 8])
            t = it.call(self.m.funcs['rtid'], [at], mem.copy() if at.base != 'rt' else mem_)[1]
            text_, size = rest[:2] if isinstance(rest[0], Ptr) else rest[1::-1]
            size = x.cval(size)
            n = [x.cval(t)] + [x.cval(w) for w in rest[2:]]
            if cl is None or None in n or a.sym or size is None:
                raise prov.Unsupported('value of an unknown member')
            s.sets.append((a.base, (a.off, cl) + tuple(n), tuple(tuple(b) for b in chars(s, it, mem, it.ptr(text_), size)), i))
            return x.cw(0, 32)

        def const(it, mem, p):
            p = it.ptr(p)
            it.access('load', p, 1, {}, mem)
            t = cstr(s, mem, p)
            if t is None:
                raise prov.Unsupported('number in an unknown text')
            return t

        def conv(it, dem, i, args, mem):
            p = it.ptr(args[0])
            it.access('load', p, 1, i, mem)
            o = it.obj(mem, p.base)
            if o.size is not None and not 0 <= p.off < o.size:
                return x.inp('number outside of a text', 64)
            t = const(it, mem, p)
            b = 10 if 'ato' in dem else x.cval(args[2])
            m = re.match(r'[ \t\n\r\v\f]*([+-]?)(?:0[xX](?=[0-9a-fA-F]))?([0-9a-fA-F]+)' if b == 16 else r'[ \t\n\r\v\f]*([+-]?)([0-9]+)', t)
            v = int(m.group(1) + m.group(2), b) if m else 0
            if 'ato' not in dem and it.ptr(args[1]).base != 'null':
                it.store(mem, it.ptr(args[1]), ['p'], Ptr(p.base, p.off + (m.end() if m else 0)), {})
            if 'u' not in dem:
                v = max(-1 << 63, min((1 << 63) - 1, v))
            w = 32 if dem.endswith('atoi') else 64
            return x.cw(v & ((1 << w) - 1), w)

        def snprintf(it, dem, i, args, mem):
            k = 1 if dem == 'sprintf' else 2
            out = printf(s, it, mem, args, k)
            w = out if k == 1 else out[:max(0, x.cval(args[1]) - 1)]
            p = it.ptr(args[0])
            it.access('store', p, len(w) + 1, i, mem)
            it.obj(mem, p.base)
            o = mem.w(p.base)
            for j, b in enumerate(w + b'\0'):
                o.cells[p.off + j] = tuple(x.cw(b, 8))
            return x.cw(len(out), 32)

        def xstring(it, dem, i, args, mem):
            out = printf(s, it, mem, args, 3)
            r = it.ptr(args[0])
            it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), {})
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], x.cw(len(out), 64), {})
            o = mem.w(r.base)
            for j, b in enumerate(out + b'\0'):
                o.cells[r.off + 16 + j] = tuple(x.cw(b, 8))
            return None

        def buffer(it, dem, i, args, mem):
            n = x.cval(args[-3])
            if n is not None:
                s.parsed.append([tuple(b) for b in chars(s, it, mem, it.ptr(args[-4]), n)])
            return NotImplemented

        def front(r, h):
            s.it.models.insert(0, (re.compile(r), h))
        front(r'^Reflector::GetReflectedValue(\[abi:cxx11\])?\(unsigned long', get)
        front(r'^Reflector::SetReflectedValue\(reflType,', put)
        front(r'^(__isoc23_)?(strtou?ll?|ato(i|l|ll))$', conv)
        front(r'^s?n?printf$', snprintf)
        front(r'__gnu_cxx::__to_xstring', xstring)
        front(r'^pugi::xml_node::append_buffer', buffer)
        return s

    def on(self, m, k, pattern):
        """enumerators that are set in a flags member"""
        e = [v for _, v in ENUMS[m[5]]]
        return [v for j, v in enumerate(e) if (0, 1, (j + k) % 2, (j + k + 1) % 2, j == 0)[pattern]]

    def expected(self, cl, off=0):
        """(offset, class, member) of everything that has to be kept"""
        r = []
        for k, (n, ty, sub, ct, num, th) in enumerate(CL[cl]):
            k = self.index(cl, k)
            if 'Class' in ty or 'Class' in (sub or ''):
                o, z = self.lay[cl, n]
                for j in range(num if ty == 'Array' else 1):
                    r += self.expected(th, off + o + j * z)
            else:
                r.append((off, cl, k))
        return r

    def paths(self, cl, off=0, at=''):
        """the names of members by what identifies them"""
        r = {}
        for k, (n, ty, sub, ct, num, th) in enumerate(CL[cl]):
            k = self.index(cl, k)
            if 'Class' in ty or 'Class' in (sub or ''):
                o, z = self.lay[cl, n]
                for j in range(num if ty == 'Array' else 1):
                    r.update(self.paths(th, off + o + j * z, at + n + ('[%d].' % j if ty == 'Array' else '.')))
            else:
                r[off, cl, k] = at + n
        return r

    def index(self, cl, k):
        return {0: 0, 1: 3}[k] if cl == 'WithUnreg' else k

    def bad(self, s, objects=()):
        """accesses outside of what is there"""
        r = []
        for e in s.it.events:
            if e.kind not in ('load', 'store', 'memcpy') or not isinstance(e.ptr, Ptr):
                continue
            if e.ptr.base == 'null':
                r.append('null is used at %s' % ir.loc_str(e.loc))
            elif isinstance(e.ptr.base, str) or e.ptr.base[0] in ('heap', 'g'):
                o = (s.out if s._out is not None else s.mem).o.get(e.ptr.base)
                if o is not None and o.size is not None and not e.ptr.sym and isinstance(e.size, int) and e.size and not 0 <= e.ptr.off <= o.size - e.size:
                    r.append('%s at %s of %s bytes, at %s' % (e.kind, e.ptr.off, o.size, ir.loc_str(e.loc)))
        return r


def members(key):
    return key[:3], key[3:]


def run(c):
    c.rule('Constant, points-to and provenance dataflow of Save into Load through a model of the document tree: every text that is set must be the text that was read from the same member, and every member is covered; '
           'for documents of other shape nothing outside the texts and objects is used.')
    c.assumption('pugixml keeps names and texts; single values as text as decided by R03 and R04; tables as decided by R01')
    g = Rig(c)
    for cl in USE:
        for how in HOW:
            for top in (0, 1):
                for pat in range(5 if cl in ('T', 'T2', 'Nameless') and not top else 1):
                    if c.tier == 'quick' and pat and (how != 'v2' or cl == 'Nameless' or pat > 2):
                        continue
                    key = '%s of %s%s%s' % (how, cl, ' with its own element' if top else '', ', flags %d' % pat if pat else '')
                    with c.part(key):
                        trip(c, g, cl, how, top, pat, key)
    for k, (what, (cl, _)) in enumerate(FOREIGN.items()):
        for how in ('v1', 'v2'):
            with c.part('%s, %s' % (what, how)):
                s = g.new()
                s.run('foreign_%d' % k)
                p = s.it.ptr(s.ret)
                s2 = g.new(s.out)
                s2.buf('d')
                s2.run('load_%s_%s' % (how, cid(cl)), [Ptr('d'), p, s2.const(0, 1)])
                g.seen |= s2.it.visited
                b = g.bad(s2)
                c.ob('%s, %s: nothing else is used' % (what, how), not b, '%s' % b[:3], b[0].rsplit(' at ')[-1] if b else '')
                e = [v for v in s2.sets if len(v[1]) and v[0] != 'd']
                c.ob('%s, %s: only the object is set' % (what, how), not e, '%s' % [v[:2] for v in e][:2], 'LoadV2 (datas/reflector_xml.cpp)')
    for k, (what, (hows, cl, top, _, want)) in enumerate(SOME.items()):
        for how in hows:
            key = '%s, %s' % (what, how)
            with c.part(key):
                at = 'Load%s (datas/reflector_xml.cpp)' % ('' if how == 'v1' else 'V2')
                s = g.new()
                s.run('some_%d' % k)
                p = s.it.ptr(s.ret)
                s2 = g.new(s.out)
                s2.buf('d')
                s2.run('load_%s_%s' % (how, cid(cl)), [Ptr('d'), p, s2.const(top, 1)])
                g.seen |= s2.it.visited
                names = g.paths(cl)
                got = {}
                for base, m, t, i in s2.sets:
                    who, sub = members(m)
                    d = CL[who[1]][who[2]]
                    if base == 'd' and sub and d[1] == 'Array' and sub[0] >= d[4]:
                        continue
                    v = [g.x.cval(Word(b)) for b in t]
                    n = names.get(who, 'member %s' % (who,)) + ''.join('[%d]' % z for z in sub)
                    got[n if base == 'd' else '%s of %s' % (n, base)] = None if None in v else ''.join(map(chr, v))
                for n, v in want.items():
                    c.ob('%s: %s' % (key, n), got.get(n) == v or isinstance(v, tuple) and got.get(n) in v, 'is set to %r, required %r' % (got.get(n), v), at)
                more = [n for n in got if n not in want]
                c.ob(key + ': nothing else is set', not more, '%s' % more[:3], at)
                if not want and top and what != 'an empty element':
                    c.ob(key + ': no element is returned', s2.it.ptr(s2.ret).base == 'null', '%s' % s2.ret, at)
    c.unit('reflector_xml', g.m, g.seen)


def trip(c, g, cl, how, top, pat, key):
    x = g.x
    s = g.new(pattern=pat)
    s.run('newdoc' if top else 'newelement')
    node = s.it.ptr(s.ret)
    s1 = g.new(s.out, pat)
    s1.buf('s')
    s1.run('save_%s_%s' % (how, cid(cl)), [Ptr('s'), node, s1.const(top, 1)])
    g.seen |= s1.it.visited
    at = 'Save%s (datas/reflector_xml.cpp)' % ('' if how == 'v1' else 'V2')
    b = g.bad(s1)
    c.ob(key + ': saving uses only the object', not b, '%s' % b[:3], b[0].rsplit(' at ')[-1] if b else '')
    if not c.ob(key + ': saving ends', s1._out is not None, 'never returns', at):
        return
    r = s1.it.ptr(s1.ret)
    if top:
        q = g.ask(s1.it, s1.out, 'parent', r) if r.base != 'null' else None
        nm = cstr(s1, s1.out, s1.it.ptr(g.ask(s1.it, s1.out, 'name', r))) if q is not None else None
        c.ob(key + ': the new element is a child', q is not None and s1.it.ptr(q) == node, 'is child of %s' % q, at)
        c.ob(key + ': name of the element', cl in NAMELESS + ['Nameless'] and nm is not None and re.match('h:[0-9A-F]+$', nm) or nm == g.cname[cl], 'is %r' % nm, at)
    else:
        c.ob(key + ': the same element is returned', r == node, '%s' % r, at)
    if how != 'v1' and cl in STRINGS:
        fn, num = STRINGS[cl]
        n = x.cval(Word(g.ask(s1.it, s1.out, fn, node)))
        c.ob(key + ': strings are %s' % ('attributes, in nested classes as well' if how == 'attributes' else 'elements'), n == num << (0 if how == 'attributes' else 8),
             '%s attributes, %s elements' % (n % 256 if n is not None else '?', n // 256 if n is not None else '?'), at)
    s2 = g.new(s1.out, pat)
    s2.buf('d')
    s2.run('load_%s_%s' % (how, cid(cl)), [Ptr('d'), node, s2.const(top, 1)])
    g.seen |= s2.it.visited
    at = 'Load%s (datas/reflector_xml.cpp)' % ('' if how == 'v1' else 'V2')
    b = g.bad(s2)
    c.ob(key + ': loading uses only the object', not b, '%s' % b[:3], b[0].rsplit(' at ')[-1] if b else '')
    if not c.ob(key + ': loading ends', s2._out is not None, 'never returns', at):
        return
    c.ob(key + ': the loaded element is returned', s2.it.ptr(s2.ret) == r, '%s' % s2.ret, at)
    need = {}
    for k in g.expected(cl):
        need[k] = set()
    for base, k, text, i in s2.sets:
        who, sub = members(k)
        m = CL[who[1]][who[2]] if who[1] != 'WithUnreg' else CL['WithUnreg'][{0: 0, 3: 1}.get(who[2], 0)]
        if not c.ob(key + ': %s.%s is a member of the object' % (who[1], m[0]), base == 'd' and who in need, '%s at %s+%s is set' % (who[1], base, who[0]), ir.loc_str(i)):
            continue
        whole = m[1] == 'EnumFlags' and not sub or m[2] == 'EnumFlags' and len(sub) == 1
        name = key + ': %s.%s%s at %s' % (who[1], m[0], ''.join('[%d]' % z for z in sub), who[0])
        want = [tuple(z) for z in tokenbytes(x, ('get',) + k)]
        got = [tuple(t) for t in text]
        ok = len(got) == len(want) and all(x.same(p, q) for t, w in zip(got, want) for p, q in zip(t, w))
        det = 'text of %s' % [q for _, q, _ in s1.gets if [tuple(z) for z in tokenbytes(x, ('get',) + q)] == got][:1]
        if not ok and whole:
            v = [x.cval(Word(t)) for t in got]
            if None not in v:
                t = ''.join(map(chr, v))
                names = [n for n, w in ENUMS[m[5]] if w in g.on(m, sub[0] if sub else 0, pat)]
                have = [p.strip() for p in t.split('|') if p.strip()]
                ok = sorted(have) == sorted(names) or not names and have in ([], ['NULL'])
                det = 'is %r, required %s' % (t, names)
        c.ob(name + ' gets its own text', ok, det, ir.loc_str(i))
        need[who].add(sub)
    for who, subs in need.items():
        m = CL[who[1]][who[2]] if who[1] != 'WithUnreg' else CL['WithUnreg'][{0: 0, 3: 1}[who[2]]]
        comp = m[5][3] if isinstance(m[5], tuple) else 0
        full = () in subs
        if not full and m[1] == 'Array':
            full = all((j,) in subs or comp and all((j, e) in subs for e in range(comp)) for j in range(m[4]))
        elif not full and comp:
            full = all((e,) in subs for e in range(comp))
        c.ob(key + ': %s.%s at %s is restored' % (who[1], m[0], who[0]), full, 'set: %s' % sorted(subs), at)
    # texts must not be taken for markup
    raw = [k for b_, k, _ in s1.gets if k[1] != 'WithUnreg' and 'String' in CL[k[1]][k[2]][1] + str(CL[k[1]][k[2]][2])]
    if raw:
        p = s1.parsed
        bad = [k for k in raw if any(t == [tuple(z) for z in tokenbytes(x, ('get',) + k)] for t in p)]
        c.ob(key + ': strings are kept as text', not bad, 'text of %s.%s is parsed as markup' % (bad[0][1], CL[bad[0][1]][bad[0][2]][0]) if bad else '', 'append_buffer in datas/reflector_xml.cpp')
