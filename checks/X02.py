"""pugiex: flags and states mean the same as pugixml's, no failure goes unnoticed, children are all collected."""
import os
import ir
from refl import *
from drv import *
from textstream import chars, printf

MIN = 140
STATUS = ['ok', 'file_not_found', 'io_error', 'out_of_memory', 'internal_error', 'unrecognized_tag', 'bad_pi', 'bad_comment', 'bad_cdata', 'bad_doctype', 'bad_pcdata', 'bad_start_element', 'bad_attribute',
          'bad_end_element', 'end_element_mismatch', 'append_invalid_root', 'no_document_element']
PARSE = dict(PI='pi', Comments='comments', CDATA='cdata', WhiteSpacePCDATA='ws_pcdata', Escapes='escapes', EOL='eol', WConvAttribute='wconv_attribute', WNormAttribute='wnorm_attribute', Declaration='declaration',
             DocType='doctype', WhiteSpavePCDATASingle='ws_pcdata_single', TrimPCDATA='trim_pcdata', Fragment='fragment', EmbedPCDATA='embed_pcdata')
FORMAT = dict(Indent='indent', WriteBOM='write_bom', Raw='raw', NoDeclaration='no_declaration', NoEscapes='no_escapes', SaveFileText='save_file_text', IndentAttributes='indent_attributes',
              NoEmptyElementTaggs='no_empty_element_tags', SkipControlChars='skip_control_chars')
ENC = dict(Auto='auto', UTF8='utf8', UTF16_LE='utf16_le', UTF16_BE='utf16_be', UFT16='utf16', UTF32_LE='utf32_le', UTF32_be='utf32_be', UTF32='utf32', Wchar='wchar', Latin1='latin1')
ENUM = dict(parse=('XMLParseFlag', PARSE), format=('XMLFormatFlag', FORMAT), encoding=('XMLEncoding', ENC))
SRC = PRE + '#include "' + os.path.join(os.path.dirname(os.path.abspath(ir.__file__)), 'pugimodel.inl') + '"\n' + r'''
namespace pugi {
extern "C" int loadstate(const char *, unsigned, int);
extern "C" bool savestate(const void *, const char *, const char *, unsigned, int);
xml_document::xml_document() { _root = model::node(node_document); }
xml_document::~xml_document() { _root = nullptr; }
xml_document::xml_document(xml_document &&r) noexcept : xml_node(r._root) { r._root = model::node(node_document); }
xml_parse_result xml_document::load_file(const char *p, unsigned o, xml_encoding e) { xml_parse_result r; r.status = (xml_parse_status)loadstate(p, o, e); r.offset = 1234; _root = model::node(node_document); model::add(_root, node_element)->name = "loaded"; return r; }
bool xml_document::save_file(const char *p, const char *i, unsigned f, xml_encoding e) const { return savestate(_root, p, i, f, e); }
xml_node xml_document::document_element() const { for (auto c = _root->first; c; c = c->next) if (c->type == node_element) return xml_node(c); return xml_node(); }
}
#include "datas/master_printer.hpp"
#include "datas/pugiex.hpp"
#include <type_traits>
template <class E> constexpr bool std_error() { return std::is_convertible<E *, std::runtime_error *>::value && std::is_convertible<E *, XMLBaseException *>::value; }
extern "C" {
void found(const void *);
void load(const char *n) { std::string f(n); auto d = XMLFromFile(f); found(d.document_element().internal_object()); }
void loadflags(const char *n, const XMLParseFlags &o, int e) { std::string f(n); auto d = XMLFromFile(f, o, static_cast<XMLEncoding>(e)); found(d.document_element().internal_object()); }
void save(const char *n) { std::string f(n); pugi::xml_document d; found(d.internal_object()); XMLToFile(f, d); }
void saveflags(const char *n, const XMLFormatFlags &o, const char *i, int e) { std::string f(n); pugi::xml_document d; found(d.internal_object()); XMLToFile(f, d, o, i, static_cast<XMLEncoding>(e)); }
unsigned dparse() { return static_cast<uint32>(XMLDefaultParseFlags); }
unsigned pdparse() { return pugi::parse_default; }
unsigned dformat() { return static_cast<uint32>(XMLDefaultFormatFlags); }
unsigned pdformat() { return pugi::format_default; }
bool is_errors() { return std_error<XMLMissingNodeException>() && std_error<XMLMissingNodeAttributeException>() && std_error<XMLEmptyData>() && std_error<XMLBaseException>(); }
size_t flagsize() { return sizeof(XMLParseFlags) + 256 * sizeof(XMLFormatFlags); }
}
static pugi::xml_node tree() { pugi::xml_node n(pugi::model::add(pugi::model::node(pugi::node_document), pugi::node_element)); n.set_name("root");
  for (const char *c : {"a", "b", "a", "ab", "", "a", "B"}) n.append_child(c); n.append_child(pugi::node_pcdata).set_value("a"); n.append_child("a").append_child("a"); return n; }
extern "C" {
void collect(const char *p, size_t k) { auto t = tree(); for (auto c : t.children()) found(c.internal_object()); found(nullptr); auto v = XMLCollectChildren(t, es::string_view(p, k)); for (auto &c : v) found(c.internal_object()); }
void collectall() { auto t = tree(); for (auto c : t.children()) found(c.internal_object()); found(nullptr); auto v = XMLCollectChildren(t); for (auto &c : v) found(c.internal_object()); }
void collectnone() { auto v = XMLCollectChildren(pugi::xml_node(), "a"); found(nullptr); for (auto &c : v) found(c.internal_object()); }
}
static const char names[] = "first\0the node\0";
static pugi::xml_node named() { auto d = pugi::model::node(pugi::node_document); auto f = pugi::model::add(d, pugi::node_element); f->name = names; auto n = pugi::model::add(f, pugi::node_element); n->name = names + 6; return pugi::xml_node(n); }
extern "C" {
void e_node() { throw XMLMissingNodeException("some name", named()); }
void e_attribute() { throw XMLMissingNodeAttributeException("some name", named()); }
void e_data() { throw XMLEmptyData(named()); }
void e_base() { throw XMLBaseException("some name", named()); }
}
''' + ''.join('extern "C" unsigned m_%s_%s() { return static_cast<uint32>(%s); } extern "C" unsigned p_%s_%s() { return pugi::%s_%s; }\n' % (
    k, m, 'XML%sFlags(%s::%s)' % (k.capitalize(), e, m) if k != 'encoding' else e + '::' + m, k, m, k, p) for k, (e, ms) in ENUM.items() for m, p in ms.items()) + ''.join(
    'extern "C" unsigned s_%s() { return status_%s; } extern "C" unsigned ps_%s() { return pugi::status_%s; } extern "C" void sn_%s(std::string *o) { new (o) std::string(GetReflectedEnum<XMLError>()[pugi::status_%s].to_string()); }\n' % ((m,) * 6) for m in STATUS)


def run(c):
    c.rule('Constants of the enumerations are compared with pugixml\'s; for every status of pugixml the dataflow of XMLFromFile and XMLToFile must end as stated, with name, flags and encoding passed on unchanged.')
    c.assumption('pugixml loads and saves files, modelled as opaque; flag sets as decided by F01')
    m = ir.unit(text=SRC, name='X02', passes=ir.LIGHT)
    seen = set()
    base = []

    def new():
        s = S(m)
        guards(s)
        s.it.exceptions = True
        s.it.record_access = True
        if base:
            s.mem = base[0].copy()
        tree_models(s)
        cstring_models(s)
        s.found, s.loads, s.saves, s.texts = [], [], [], []
        s.state = 0
        A = lambda r, h: s.it.models.append((re.compile(r), h))
        x = s.c

        def loadstate(it, dem, i, args, mem):
            s.loads.append((cstr(s, mem, it.ptr(args[0])),) + tuple(args[1:]))
            return x.cw(s.state, 32)

        def savestate(it, dem, i, args, mem):
            s.saves.append((it.ptr(args[0]), cstr(s, mem, it.ptr(args[1])), it.ptr(args[2])) + tuple(args[3:]))
            return x.cw(s.state, 1)

        def error(it, dem, i, args, mem):
            p = it.ptr(args[1])
            if '(char const*)' in dem:
                s.texts.append(cstr(s, mem, p))
            else:
                n = x.cval(it.load(mem, Ptr(p.base, p.off + 8), ['i', 64], i))
                t = chars(s, it, mem, it.ptr(it.load(mem, p, ['p'], i)), n)
                v = [x.cval(Word(b)) for b in t]
                s.texts.append(None if None in v else ''.join(map(chr, v)))

        def xstring(it, dem, i, args, mem):
            out = printf(s, it, mem, args, 3)
            r = it.ptr(args[0])
            it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), {})
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], x.cw(len(out), 64), {})
            o = mem.w(r.base)
            for j, b in enumerate(out + b'\0'):
                o.cells[r.off + 16 + j] = tuple(x.cw(b, 8))
        A(r'^loadstate$', loadstate)
        A(r'^savestate$', savestate)
        A(r'^std::runtime_error::runtime_error\(', error)
        A(r'__gnu_cxx::__to_xstring', xstring)
        A(r'^found$', lambda it, dem, i, args, mem: s.found.append(it.ptr(args[0])))
        return s

    def go(fn, *args, state=0, out=(), prep=None):
        s = new()
        s.state = state
        a = []
        for v in args:
            if isinstance(v, str):
                v = text(s, 'text', v + '\0')
            a.append(v)
        for o in out:
            a.append(s.buf(o))
        if prep:
            a += prep(s)
        s.run(fn, a)
        seen.update(s.it.visited)
        s.val = s.c.cval(Word(s.ret)) if s.ret is not None and not isinstance(s.ret, Ptr) else s.ret
        return s
    for n in m.ctors():
        s = go(n)
        base[:] = [s.out]
    for k, (e, ms) in ENUM.items():
        for me, p in ms.items():
            with c.part('%s::%s' % (e, me)):
                a, b = go('m_%s_%s' % (k, me)).val, go('p_%s_%s' % (k, me)).val
                c.ob('%s::%s is pugi::%s_%s' % (e, me, k, p), a is not None and a == b, '%s, required %s' % (a, b), '%s (datas/pugiex.hpp)' % e)
    for k in ('parse', 'format'):
        with c.part('default %s flags' % k):
            a, b = go('d' + k).val, go('pd' + k).val
            c.ob('default %s flags are pugi::%s_default' % (k, k), a is not None and a == b, '%s, required %s' % (a, b), 'XMLDefault%sFlags (datas/pugiex.hpp)' % k.capitalize())
    for st in STATUS:
        with c.part('status_%s' % st):
            a, b = go('s_' + st).val, go('ps_' + st).val
            c.ob('status_%s is pugi::status_%s' % (st, st), a is not None and a == b, '%s, required %s' % (a, b), 'XMLError (datas/pugiex.hpp)')
            s = go('sn_' + st, out=['o'])
            t = cstr(s, s.out, s.it.ptr(s.it.load(s.out, Ptr('o'), ['p'], {})))
            c.ob('name of status_%s' % st, t == 'status_' + st, '%r' % t, 'XMLError (datas/pugiex.hpp)')
            s = go('load', 'a file.xml', state=b)
            at = 'XMLFromFile (datas/pugiex.hpp)'
            thrown = [t for _, _, t in s.it.thrown]
            c.ob('status_%s: the file is loaded once' % st, [l[0] for l in s.loads] == ['a file.xml'], '%s' % [l[0] for l in s.loads], at)
            if st == 'ok':
                c.ob('a loaded document is returned', not thrown and len(s.found) == 1 and s.found[0].base != 'null', 'thrown: %s' % thrown, at)
                c.ob('a loaded document is not loaded over', s._out is not None and s.it.load(s.out, Ptr(s.found[0].base, 8), ['p'], {}) is not None, '', at)
            else:
                want = {'file_not_found': 'FileNotFoundError', 'no_document_element': 'InvalidHeaderError'}.get(st, 'runtime_error')
                c.ob('status_%s throws %s' % (st, want), s._out is None and len(thrown) == 1 and want in thrown[0] and not s.found, 'thrown: %s' % thrown, at)
                if st not in ('no_document_element', 'file_not_found'):
                    t = (s.texts or [None])[-1]
                    c.ob('status_%s: the message names file, state and offset' % st, t is not None and 'a file.xml' in t and 'status_' + st in t and '1234' in t, '%r' % t, at)
    size = go('flagsize').val
    with c.part('flags and encoding of files'):
        s = go('loadflags', 'a file.xml', prep=lambda s: [s.buf('flags'), s.arg('encoding', 32)])
        l = s.loads[0]
        f = s.inbits('flags', 0, size & 255)
        c.ob('XMLFromFile passes the flags', l[1] == Word(list(f) + [0] * (32 - len(f))) if len(f) <= 32 else False, '%s' % (l[1],), 'XMLFromFile (datas/pugiex.hpp)')
        c.ob('XMLFromFile passes the encoding', l[2] == s.arg('encoding', 32), '%s' % (l[2],), 'XMLFromFile (datas/pugiex.hpp)')
        s = go('load', 'a file.xml')
        c.ob('XMLFromFile: default flags', s.c.cval(s.loads[0][1]) == go('pdparse').val, '', 'XMLFromFile (datas/pugiex.hpp)')
        c.ob('XMLFromFile: default encoding', s.c.cval(s.loads[0][2]) == go('p_encoding_Auto').val, '', 'XMLFromFile (datas/pugiex.hpp)')
        at = 'XMLToFile (datas/pugiex.hpp)'
        for st in (1, 0):
            s = go('saveflags', 'a file.xml', state=st, prep=lambda s: [s.buf('flags'), s.buf('indent'), s.arg('encoding', 32)])
            key = 'saving that %s' % ('works' if st else 'fails')
            if c.ob(key + ': once', len(s.saves) == 1, '%s' % s.saves, at):
                l = s.saves[0]
                f = s.inbits('flags', 0, size >> 8)
                c.ob(key + ': that document', len(s.found) == 1 and l[0] == s.found[0], '%s' % l[0], at)
                c.ob(key + ': that file', l[1] == 'a file.xml', '%r' % l[1], at)
                c.ob(key + ': indent', l[2] == Ptr('indent'), '%s' % l[2], at)
                c.ob(key + ': flags', l[3] == Word(list(f) + [0] * (32 - len(f))), '%s' % (l[3],), at)
                c.ob(key + ': encoding', l[4] == s.arg('encoding', 32), '%s' % (l[4],), at)
            thrown = [t for _, _, t in s.it.thrown]
            if st:
                c.ob(key + ': returns', s._out is not None and not thrown, '%s' % thrown, at)
            else:
                c.ob(key + ': throws FileInvalidAccessError', s._out is None and len(thrown) == 1 and 'FileInvalidAccessError' in thrown[0], '%s' % thrown, at)
        s = go('save', 'a file.xml', state=1)
        c.ob('XMLToFile: default flags', len(s.saves) == 1 and s.c.cval(s.saves[0][3]) == go('pdformat').val, '', at)
        c.ob('XMLToFile: default encoding', len(s.saves) == 1 and s.c.cval(s.saves[0][4]) == go('p_encoding_Auto').val, '', at)
        c.ob('XMLToFile: default indent', len(s.saves) == 1 and cstr(s, s.out, s.saves[0][2]) == '\t', '', at)
    at = 'XMLCollectChildren (datas/pugiex.hpp)'
    for nm, want in (('a', [0, 2, 5, 8]), ('b', [1]), ('ab', [3]), ('abc', []), ('B', [6])):
        with c.part('children %r' % nm):
            s = go('collect', prep=lambda s: [text(s, 'name', nm), s.const(len(nm), 64)])
            k = s.found.index(Ptr('null'))
            c.ob('children %r are all collected' % nm, [s.found[j] for j in want] == s.found[k + 1:], '%s' % [s.found.index(f) for f in s.found[k + 1:] if f in s.found], at)
    with c.part('all children'):
        s = go('collectall')
        k = s.found.index(Ptr('null'))
        c.ob('all children are collected without a name', k == 9 and s.found[:k] == s.found[k + 1:], '%d of %d' % (len(s.found) - k - 1, k), at)
        s = go('collectnone')
        c.ob('nothing has no children', s.found == [Ptr('null')], '%s' % s.found, at)
        bad = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'null']
        c.ob('nothing is not used', not bad, '', at)
    for k in ('node', 'attribute', 'data', 'base'):
        with c.part('error of a missing %s' % k):
            s = go('e_' + k)
            t = (s.texts or [None])[-1]
            at = 'XMLBaseException (datas/pugiex.hpp)'
            c.ob('error of a missing %s names the element' % k, t is not None and 'the node' in t, '%r' % t, at)
            if k != 'data':
                c.ob('error of a missing %s names it' % k, t is not None and 'some name' in t, '%r' % t, at)
    c.ob('all errors are runtime errors', go('is_errors').val == 1, '', 'XMLBaseException (datas/pugiex.hpp)')
    c.unit('pugiex', m, seen)
