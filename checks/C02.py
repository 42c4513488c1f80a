"""Types keep their contracts: ownership, destruction through bases, conversions, layouts and
use in constant expressions, decided by the compilers as static assertions."""
import os, re, subprocess
import ir

MIN = 2200
HEAD = r'''
#include <cstdint>
#include <cstring>
#include <cwctype>
#include <memory>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "datas/string_view.hpp"
#include "datas/unicode.hpp"
#include "datas/vectors.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/matrix44.hpp"
#include "datas/base_128.hpp"
#include "datas/flags.hpp"
#include "datas/bitfield.hpp"
#include "datas/float.hpp"
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include "datas/pointer.hpp"
#include "datas/except.hpp"
#include "datas/endian.hpp"
#include "datas/deleter_hybrid.hpp"
#include "datas/allocator_hybrid.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/fileinfo.hpp"
#include "datas/supercore.hpp"
#include "datas/reflector.hpp"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include "datas/zip_vfs.hpp"
#include "uni/rts.hpp"
#include "uni/format.hpp"
#include "uni/list.hpp"
#include "uni/list_vector.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "formats/DDS.hpp"
enum class E8 : uint8_t { A, B, C };
enum class E16 : uint16_t { A, B, C };
enum class E32 : uint32_t { A, B, C };
enum class E64 : uint64_t { A, B, C };
using M1 = BitMemberDecl<0, 3>; using M2 = BitMemberDecl<1, 5>; using M3 = BitMemberDecl<2, 8>;
using BF16 = BitFieldType<uint16, M1, M2, M3>;
using BF64 = BitFieldType<uint64, M1, M2, M3>;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class A, class B> constexpr bool conv = std::is_convertible<A, B>::value;       // implicit
template <class A, class B> constexpr bool makes = std::is_constructible<B, A>::value;     // written out
template <class T> constexpr bool copies = std::is_copy_constructible<T>::value;
template <class T> constexpr bool copyassigns = std::is_copy_assignable<T>::value;
template <class T> constexpr bool moves = std::is_move_constructible<T>::value;
template <class T> constexpr bool moveassigns = std::is_move_assignable<T>::value;
template <class T> constexpr bool standard = std::is_standard_layout<T>::value;
template <class T> constexpr bool trivialcopy = std::is_trivially_copyable<T>::value;
template <class T> constexpr bool isabstract = std::is_abstract<T>::value;
template <class T> constexpr bool virtualdtor = std::has_virtual_destructor<T>::value;
template <class T> constexpr bool publicdtor = std::is_destructible<T>::value;
template <class B, class D> constexpr bool base = std::is_base_of<B, D>::value && conv<D *, B *>;
template <class A, class B, class = void> struct eq_ : std::false_type {};
template <class A, class B> struct eq_<A, B, decltype(void(std::declval<A>() == std::declval<B>()))> : std::true_type {};
constexpr BF16 bitset_() { BF16 b{}; b.Set<M2>(21); return b; }
'''


def facts():
    f = []

    def add(what, *exprs):
        for e in exprs:
            f.append((what, e))
    # uni interfaces are deleted through their bases
    uni = ['uni::Base', 'uni::PrimitiveDescriptor', 'uni::Primitive', 'uni::Skin', 'uni::Model', 'uni::MotionTrack', 'uni::Motion', 'uni::Bone', 'uni::Skeleton',
           'uni::List<uni::Bone>', 'uni::List<uni::MotionTrack>', 'uni::List<uni::Primitive>', 'uni::List<uni::PrimitiveDescriptor>', 'uni::List<uni::Skin>', 'uni::Vector<int>', 'uni::Vector<float>']
    for u in uni:
        add('deleting a derived object through the interface destroys all of it', 'virtualdtor<%s>' % u, 'publicdtor<%s>' % u)
        if u != 'uni::Base':
            add('uni interfaces are uni::Base and cannot be created themselves', '(base<uni::Base, %s>)' % u, 'isabstract<%s>' % u)
            el = 'uni::Element<%s>' % u
            add('an Element owns its object alone', '!copies<%s>' % el, '!copyassigns<%s>' % el, 'moves<%s>' % el, 'moveassigns<%s>' % el, '!(conv<%s *, %s>)' % (u, el), '(makes<%s *, %s>)' % (u, el))
            add('an Element can be held by an Element of const or of its base', '(conv<%s, uni::Element<const %s>>)' % (el, u), '!(conv<uni::Element<const %s>, %s>)' % (u, el), '(conv<%s, uni::BaseElement>)' % el,
                '(conv<uni::Element<const %s>, uni::BaseElementConst>)' % u, '!(makes<uni::BaseElement, %s>)' % el)
            add('an Element is deleted by a hybrid deleter', '(same<typename %s::deleter_type, es::deleter_hybrid>)' % el)
    for n in ('PrimitivesConst', 'SkinsConst', 'PrimitiveDescriptorsConst', 'MotionTracksConst', 'SkeletonBonesConst'):
        add('what interfaces return cannot be changed', 'std::is_const<typename uni::%s::element_type>::value' % n)
    add('a list of elements gives elements of const objects', '(same<typename uni::List<uni::Bone>::const_type, uni::Element<const uni::Bone>>)', '(same<decltype(std::declval<const uni::List<uni::Bone> &>().At(0)), uni::Element<const uni::Bone>>)',
        '(same<decltype(std::declval<const uni::Vector<int> &>().At(0)), int> || same<decltype(std::declval<const uni::Vector<int> &>().At(0)), const int>)')
    add('storage lists are lists', '(base<uni::List<uni::Bone>, uni::PolyVectorList<uni::Bone, uni::Bone>>)')
    add('deleting a derived object through the interface destroys all of it', 'virtualdtor<IEncryptor>', 'virtualdtor<IBlockEncryptor>', 'virtualdtor<BlowfishEncoder>', 'publicdtor<IEncryptor>')
    add('encryptors are used through their interface', 'isabstract<IEncryptor>', 'isabstract<IBlockEncryptor>', '!isabstract<BlowfishEncoder>', '!isabstract<XOREncoder>', '(base<IEncryptor, IBlockEncryptor>)', '(base<IEncryptor, BlowfishEncoder>)', '(base<BlowfishEncoder, BlowfishEncoder2>)', '(base<IEncryptor, XOREncoder>)')
    for e in ('FileNotFoundError', 'FileInvalidAccessError', 'InvalidHeaderError', 'InvalidVersionError'):
        add('errors are runtime errors', '(base<std::runtime_error, es::%s>)' % e, 'copies<es::%s>' % e, 'virtualdtor<es::%s>' % e)
    # flags
    for b in ('8', '16', '32', '64'):
        t, v = 'es::Flags<E%s>' % b, 'uint%s' % b
        n = int(b) // 8
        add('flags are stored in an unsigned integer of the size of their enum', 'sizeof(%s) == %d' % (t, n), 'alignof(%s) == alignof(uint%s_t)' % (t, b), 'standard<%s>' % t, 'trivialcopy<%s>' % t, 'std::is_unsigned<typename %s::ValueType>::value' % t,
            'sizeof(typename %s::ValueType) == %d' % (t, n))
        add('flags become a number only when written out', '!(conv<%s, %s>)' % (t, v), '(makes<%s, typename %s::ValueType>)' % (t, t), '!(conv<%s, E%s>)' % (t, b), '!(conv<%s, bool>)' % t)
        add('flags can be compared with flags and enumerators', 'eq_<%s, %s>::value' % (t, t), 'eq_<%s, E%s>::value' % (t, b))
        add('flags can be used in constant expressions', '%s{}[E%s::A] == false' % (t, b), '%s(E%s::B)[E%s::B]' % (t, b, b), '!%s(E%s::B)[E%s::A]' % (t, b, b), '%s(E%s::A, E%s::C) == %s(E%s::C, E%s::A)' % (t, b, b, t, b, b),
            '%s(E%s::A) != %s(E%s::B)' % (t, b, t, b), '%s(E%s::A) == E%s::A' % (t, b, b), '%s(E%s::A) != E%s::B' % (t, b, b), 'static_cast<typename %s::ValueType>(%s(E%s::C)) == 4' % (t, t, b))
    add('flags can be stored in another type', 'sizeof(es::Flags<E32, uint8>) == 1', 'sizeof(es::Flags<E8, uint32>) == 4', '(same<typename es::Flags<E8, uint32>::ValueType, uint32>)')
    # bit fields
    add('bit fields have the size of their integer', 'sizeof(BF16) == 2', 'sizeof(BF64) == 8', 'standard<BF16>', 'trivialcopy<BF16>', 'trivialcopy<BF64>', 'alignof(BF16) == 2')
    add('bit fields can be used in constant expressions', 'BF16{}.Get<M1>() == 0', 'bitset_().Get<M2>() == 21', 'bitset_().Get<M1>() == 0', 'bitset_().Get<M3>() == 0')
    # hashes
    for h in ('JenHash', 'JenHashCannon', 'JenHash3'):
        add('hashes are stored in four bytes', 'sizeof(%s) == 4' % h, 'standard<%s>' % h, 'trivialcopy<%s>' % h, 'alignof(%s) == 4' % h)
        add('hashes are made of text', '(conv<es::string_view, %s>)' % h, '(makes<const char (&)[4], %s>)' % h)
        add('hashes can be used in constant expressions', '%s("abc") == %s("abc")' % (h, h), '%s("abc") != %s("abd")' % (h, h), '%s() == %s(0u)' % (h, h), '%s(es::string_view("xyz", 3)) == %s("xyz")' % (h, h), '%s(7u) == 7u' % h)
    for h in ('JenHash', 'JenHashCannon'):
        add('a hash is no number unless written out', '!(conv<uint32, %s>)' % h, '(makes<uint32, %s>)' % h, '!(conv<%s, uint32>)' % h, '!(conv<%s, bool>)' % h, '(conv<const char (&)[4], %s>)' % h)
        add('hashes are ordered', '%s(1u) < %s(2u) || %s(2u) < %s(1u)' % (h, h, h, h), '!(%s(2u) < %s(2u))' % (h, h), '(%s(1u) < %s(2u)) == (%s(2u) > %s(1u))' % (h, h, h, h))
    add('the two Jenkins hashes are different types', '!(same<JenHash, JenHashCannon>)', '!(conv<JenHash, JenHashCannon>)', '!(conv<JenHashCannon, JenHash>)')
    add('a JenHash3 is made of and becomes a number', '(conv<uint32, JenHash3>)', '(conv<JenHash3, uint32>)')
    # string view
    v = 'es::string_view'
    add('a string view is made of any text', '(conv<const char *, %s>)' % v, '(conv<const std::string &, %s>)' % v, '(conv<const char (&)[3], %s>)' % v)
    add('a string view is a pair of pointer and size', 'sizeof(%s) == 16' % v, 'trivialcopy<%s>' % v, 'standard<%s>' % v, 'sizeof(es::basic_string_view<wchar_t>) == 16')
    add('views of different characters do not mix', '!(makes<%s, es::basic_string_view<wchar_t>>)' % v, '!(makes<const wchar_t *, %s>)' % v, '!(makes<std::wstring, %s>)' % v)
    add('views do not change the text', '(same<decltype(std::declval<const %s &>().data()), const char *>)' % v, 'std::is_const<std::remove_reference_t<decltype(std::declval<const %s &>()[0])>>::value' % v,
        '(same<decltype(*std::declval<%s>().begin()), const char &>)' % v)
    # stored pointers
    add('stored pointers have their stored size', 'sizeof(esPointerX86<int>) == 4', 'sizeof(esPointerX64<int>) == 8', 'alignof(esPointerX86<char>) == 4', 'alignof(esPointerX64<char>) == 8', 'trivialcopy<esPointerX64<int>>', 'standard<esPointerX86<int>>', 'sizeof(esPointerX86<double[8]>) == 4')
    for p in ('esPointerX86<int>', 'esPointerX64<int>'):
        add('stored pointers are used as pointers', '(conv<%s &, int *>)' % p, '(conv<const %s &, const int *>)' % p, '!(conv<const %s &, int *>)' % p, '(same<decltype(*std::declval<%s &>()), int &>)' % p, '(same<decltype(*std::declval<const %s &>()), const int &>)' % p,
            '(std::is_assignable<%s &, int *>::value)' % p, '!(std::is_assignable<%s &, const int *>::value)' % p)
    # numbers and vectors
    for n, b, sgn in (('int', 'IVector', 1), ('short', 'SVector', 1), ('char', 'CVector', 1), ('uint', 'UIVector', 0), ('ushort', 'USVector', 0), ('uchar', 'UCVector', 0), ('float', 'FVector', None)):
        t = {'int': 'int32', 'short': 'int16', 'char': 'int8', 'uint': 'uint32', 'ushort': 'uint16', 'uchar': 'uint8', 'float': 'float'}[n]
        for c, s in ((2, '2'), (3, ''), (4, '4')):
            a = b + s
            add('vectors are packed arrays of their components', 'sizeof(%s) == %d * sizeof(%s)' % (a, c, t), 'alignof(%s) == alignof(%s)' % (a, t), 'trivialcopy<%s>' % a, 'standard<%s>' % a)
            add('vector names say the type of their components', '(same<typename %s::value_type, %s>)' % (a, t), '(same<%s, t_Vector%s<%s>>)' % (a, s, t), '(same<decltype(%s{}.X), %s>)' % (a, t), '(same<decltype(%s{}.Y), %s>)' % (a, t))
    add('vector names say the type of their components', '(same<Vector, FVector>)', '(same<Vector2, FVector2>)', '(same<Vector4, FVector4>)', '(same<typename Vector4A16::value_type, float>)', '(same<typename IVector4A16::value_type, int32>)', '(same<typename UIVector4A16::value_type, uint32>)')
    for a in ('Vector4A16', 'IVector4A16', 'UIVector4A16'):
        add('SIMD vectors take 16 aligned bytes', 'sizeof(%s) == 16' % a, 'alignof(%s) == 16' % a, 'trivialcopy<%s>' % a)
    add('vectors become each other', '(conv<Vector4A16, Vector>)', '(conv<Vector4A16, Vector2>)', '(conv<Vector4, Vector>)', '(conv<Vector4, Vector2>)', '(conv<Vector, Vector2>)', '(conv<Vector, Vector4>)', '(makes<Vector4, Vector4A16>)', '(makes<IVector4A16, Vector4A16>)', '(makes<Vector4A16, IVector4A16>)',
        '(conv<float, Vector>)', '!(makes<Vector2, IVector2>)', '!(makes<Vector, IVector>)', '!(makes<Vector2, Vector>)')
    add('matrices are four aligned rows', 'sizeof(esMatrix44) == 64', 'alignof(esMatrix44) == 16', 'trivialcopy<esMatrix44>', 'sizeof(uni::RTSValue) == 48', 'alignof(uni::RTSValue) == 16', 'trivialcopy<uni::RTSValue>', 'sizeof(uni::BBOX) == 32')
    add('small floats have their stored size', 'sizeof(VectorR11G11B10_UFLOAT) == 4', '(conv<VectorR11G11B10_UFLOAT, Vector4A16>)')
    add('format descriptors are two numbers of two bytes', 'sizeof(uni::FormatDescr) == 4', 'sizeof(uni::FormatType) == 2', 'sizeof(uni::DataType) == 2', 'trivialcopy<uni::FormatDescr>', 'standard<uni::FormatDescr>')
    for s, u in (('8', 1), ('16', 2), ('32', 4), ('64', 8)):
        add('fixed size integers', 'sizeof(int%s) == %d' % (s, u), 'sizeof(uint%s) == %d' % (s, u), 'std::is_signed<int%s>::value' % s, 'std::is_unsigned<uint%s>::value' % s, 'std::is_integral<int%s>::value' % s,
            'sizeof(es::TypeFromSize<%d>::type) == %d' % (u, u), 'std::is_unsigned<typename es::TypeFromSize<%d>::type>::value' % u)
    add('byte swapping can be used in constant expressions', '_fbswap<uint16>(0x1234) == 0x3412', '_fbswap<uint32>(0x12345678) == 0x78563412', '_fbswap<uint64>(0x0102030405060708) == 0x0807060504030201')
    add('utilities can be used in constant expressions', 'CompileFourCC("DDS ") == 0x20534444', 'GetPadding(5, 4) == 3', 'GetPadding(8, 4) == 0', 'DDSFormat_DXT1.fourCC == CompileFourCC("DXT1")', 'DDSFormat_A8R8G8B8.bpp == 32', 'sizeof(DDS_PixelFormat) == 32')
    # streams
    for r in ('BinReaderRef', 'BinWritterRef'):
        add('references to readers and writers are cheap and copied', 'copies<%s>' % r, 'copyassigns<%s>' % r, 'std::is_default_constructible<%s>::value' % r)
    add('a reader or writer can be used through a reference', '(base<BinReaderRef, BinReader>)', '(base<BinWritterRef, BinWritter>)', '(conv<BinReader &, BinReaderRef>)', '(conv<BinWritter &, BinWritterRef>)', '!(makes<BinReader &, BinWritterRef>)', '!(makes<BinWritter &, BinReaderRef>)',
        '(conv<std::istream &, BinReaderRef>)', '(conv<std::ostream &, BinWritterRef>)', '!(makes<std::ostringstream &, BinReaderRef>)', '!(makes<std::istringstream &, BinWritterRef>)')
    for r in ('BinReader', 'BinWritter'):
        add('readers and writers own their file alone', '!copies<%s>' % r, '!copyassigns<%s>' % r, 'moves<%s>' % r)
    add('a file of an archive owns its bytes alone', '!copies<ZIPVFSFile>', '!copyassigns<ZIPVFSFile>', 'moves<ZIPVFSFile>', 'moveassigns<ZIPVFSFile>', '(conv<ZIPVFSFile &, BinReaderRef>)', '!copyassigns<ZIPVFS>', '!copies<ZIPVFS>')
    # reflection
    for n, k in enumerate(('None', 'Integer', 'UnsignedInteger', 'FloatingPoint', 'Class', 'Enum', 'Bool', 'CString', 'String', 'Array', 'Vector', 'ArrayClass', 'EnumFlags', 'BitFieldMember', 'BitFieldClass')):
        add('type codes of stored tables keep their numbers', 'static_cast<int>(REFType::%s) == %d' % (k, n))
    add('type codes of stored tables keep their numbers', 'sizeof(REFType) == 1')
    add('a reflector gives access to its object only', '!std::is_default_constructible<ReflectorPureWrap>::value')
    return f


CASES = [('gcc c++14', 'g', ['-std=c++14'], 1), ('clang c++14', 'c', ['-std=c++14'], 1), ('clang c++17', 'c', ['-std=c++17'], 1), ('gcc c++17', 'g', ['-std=c++17'], 0), ('clang c++14 without rtti', 'c', ['-std=c++14', '-fno-rtti'], 0)]


def run(c):
    fs = facts()
    text = HEAD + '#line 1 "facts"\n' + ''.join('static_assert(%s, "");\n' % e for _, e in fs)
    c.rule('Each fact is a static assertion (traits, sizes, evaluated constant expressions) in one translation unit that includes all headers; a compiler that rejects a line decides that the fact does not hold.')
    path = os.path.join(ir.tmpdir(), 'C02.cpp')
    open(path, 'w').write(text)
    try:
        for name, kind, flags, quick in CASES:
            if not quick and c.tier != 'thorough':
                continue
            base = ['-msse4', '-w', '-I' + ir.REPO, '-x', 'c++', '-fsyntax-only']
            cmd = ['g++-9'] + flags + base + ['-fmax-errors=0', path] if kind == 'g' else [ir.CLANGXX, '--gcc-install-dir=' + ir.GCC] + flags + base + ['-ferror-limit=0', path]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
            bad, other = {}, []
            last = None
            for l in r.stderr.split('\n'):
                m = re.match(r'facts:(\d+):(?:\d+:)? error: (.*)', l)
                if m:
                    bad.setdefault(int(m.group(1)), m.group(2))
                    continue
                m = re.search(r'^\S+?:\d+:\d+: (?:fatal )?error: (.*)', l)
                if m:
                    other.append(l)
                m = re.match(r'\s*facts:(\d+):\d+:\s+required from|facts:(\d+):\d+: note: in instantiation', l)
                if m and other:
                    bad.setdefault(int(m.group(1) or m.group(2)), other.pop())
            if r.returncode and (other or not bad):
                raise ir.AnalysisBroken('%s: %s' % (name, (other or [r.stderr[-300:]])[0]))
            for n, (what, e) in enumerate(fs, 1):
                c.ob('%s: %s: %s' % (name, what, e), n not in bad, bad.get(n, ''), e)
    finally:
        os.unlink(path)
    c.units += ['%d facts' % len(fs)]
    c.funcs |= set(x[0] for x in fs)
