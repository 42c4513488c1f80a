"""Declarations of the repository's headers, read through libclang (parsing only)."""
import ctypes, os
import ir


class Cursor(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int), ('x', ctypes.c_int), ('data', ctypes.c_void_p * 3)]


class Str(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p), ('f', ctypes.c_uint)]


class Loc(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p * 2), ('i', ctypes.c_uint)]


VISIT = ctypes.CFUNCTYPE(ctypes.c_int, Cursor, Cursor, ctypes.c_void_p)
FUNCS = {8: 'function', 21: 'method', 24: 'constructor', 25: 'destructor', 26: 'conversion'}
SCOPES = {22, 23, 2, 4, 3, 350}


def lib():
    for n in ('libclang.so.1', 'libclang-18.so.1', 'libclang-18.so', 'libclang.so'):
        p = os.path.join(ir.LLVM, 'lib', n)
        if os.path.exists(p):
            l = ctypes.CDLL(p)
            break
    else:
        raise ir.AnalysisBroken('libclang is missing')
    l.clang_createIndex.restype = ctypes.c_void_p
    l.clang_parseTranslationUnit.restype = ctypes.c_void_p
    l.clang_parseTranslationUnit.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p), ctypes.c_int, ctypes.c_void_p, ctypes.c_uint, ctypes.c_uint]
    l.clang_getTranslationUnitCursor.restype = Cursor
    l.clang_getTranslationUnitCursor.argtypes = [ctypes.c_void_p]
    l.clang_visitChildren.argtypes = [Cursor, VISIT, ctypes.c_void_p]
    l.clang_getCursorDefinition.restype = Cursor
    l.clang_getCursorDefinition.argtypes = [Cursor]
    l.clang_getCanonicalCursor.restype = Cursor
    l.clang_getCanonicalCursor.argtypes = [Cursor]
    for f in ('clang_Cursor_isNull', 'clang_CXXMethod_isPureVirtual', 'clang_CXXMethod_isDeleted', 'clang_CXXMethod_isDefaulted', 'clang_getCursorLinkage', 'clang_getCursorKind', 'clang_getCXXAccessSpecifier', 'clang_isCursorDefinition'):
        getattr(l, f).argtypes = [Cursor]
        getattr(l, f).restype = ctypes.c_int
    for f in ('clang_Cursor_getMangling', 'clang_getCursorDisplayName', 'clang_getCursorSpelling'):
        getattr(l, f).argtypes = [Cursor]
        getattr(l, f).restype = Str
    l.clang_getCString.argtypes = [Str]
    l.clang_getCString.restype = ctypes.c_char_p
    l.clang_getCursorLocation.argtypes = [Cursor]
    l.clang_getCursorLocation.restype = Loc
    l.clang_getExpansionLocation.argtypes = [Loc, ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_uint), ctypes.POINTER(ctypes.c_uint), ctypes.POINTER(ctypes.c_uint)]
    l.clang_getFileName.argtypes = [ctypes.c_void_p]
    l.clang_getFileName.restype = Str
    l.clang_getNumDiagnostics.argtypes = [ctypes.c_void_p]
    l.clang_getDiagnostic.argtypes = [ctypes.c_void_p, ctypes.c_uint]
    l.clang_getDiagnostic.restype = ctypes.c_void_p
    l.clang_getDiagnosticSeverity.argtypes = [ctypes.c_void_p]
    l.clang_getDiagnosticSpelling.argtypes = [ctypes.c_void_p]
    l.clang_getDiagnosticSpelling.restype = Str
    return l


def functions(path, flags):
    """[(kind, display name, mangled name, file, line, defined?, access)] of every ordinary function
    that the translation unit declares in the repository (outside templates)."""
    l = lib()
    s = lambda x: (l.clang_getCString(x) or b'').decode()
    args = [f.encode() for f in flags]
    tu = l.clang_parseTranslationUnit(l.clang_createIndex(0, 0), path.encode(), (ctypes.c_char_p * len(args))(*args), len(args), None, 0, 0)
    if not tu:
        raise ir.AnalysisBroken('cannot parse ' + path)
    for n in range(l.clang_getNumDiagnostics(tu)):
        d = l.clang_getDiagnostic(tu, n)
        if l.clang_getDiagnosticSeverity(d) >= 3:
            raise ir.AnalysisBroken('parsing: ' + s(l.clang_getDiagnosticSpelling(d)))
    out = {}
    names = {}

    def where(c):
        f, a, b, o = ctypes.c_void_p(), ctypes.c_uint(), ctypes.c_uint(), ctypes.c_uint()
        l.clang_getExpansionLocation(l.clang_getCursorLocation(c), ctypes.byref(f), ctypes.byref(a), ctypes.byref(b), ctypes.byref(o))
        if not f.value:
            return '', 0
        if f.value not in names:
            names[f.value] = os.path.realpath(s(l.clang_getFileName(f))) if f.value else ''
        return names[f.value], a.value
    root = os.path.realpath(ir.REPO) + '/'

    def visit(c, parent, _):
        k = l.clang_getCursorKind(c)
        if k in (350, 300):
            return 2
        f, n = where(c)
        if not f.startswith(root):
            return 1
        if k in SCOPES:
            return 2
        if k in FUNCS:
            if l.clang_getCursorLinkage(c) < 3 or (k != 8 and (l.clang_CXXMethod_isPureVirtual(c) or l.clang_CXXMethod_isDeleted(c) or l.clang_CXXMethod_isDefaulted(c))):
                return 1
            m = s(l.clang_Cursor_getMangling(c))
            d = not l.clang_Cursor_isNull(l.clang_getCursorDefinition(c))
            e = out.get(m)
            out[m] = (FUNCS[k], s(l.clang_getCursorDisplayName(c)), m, f[len(root):], n, d or bool(e and e[5]), l.clang_getCXXAccessSpecifier(c))
        return 1
    cb = VISIT(visit)
    l.clang_visitChildren(l.clang_getTranslationUnitCursor(tu), cb, None)
    return list(out.values())
