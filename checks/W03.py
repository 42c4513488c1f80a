"""Node suffixes: channels, colors, normals, skin and morph of a node are listed in its name."""
import itertools, re
import ir
from refl import *
from drv import *

MIN = 60
SRC = PRE + r'''
#include <cstdio>
#include <cstring>
#include <string>
#ifndef ES_FORCEINLINE
#define ES_FORCEINLINE inline
#endif
#ifndef ES_INLINE
#define ES_INLINE inline
#endif
#include "datas/supercore.hpp"
#include "datas/tchar.hpp"
#include "MAXex/NodeSuffix.h"
extern "C" { void said(const TCHAR *, size_t);
void gen(const int *ops, int n, const TCHAR *name, size_t len, bool twice) {
  INodeSuffixer s;
  for (int i = 0; i < n; i++) switch (ops[2 * i]) {
    case 0: s.AddChannel(ops[2 * i + 1]); break;
    case 1: s.AddColor(); break;
    case 2: s.AddFullColor(); break;
    case 3: s.UseNormals(); break;
    case 4: s.UseSkin(); break;
    case 5: s.UseMorph(); break;
  }
  TSTRING cls(name, len);
  if (twice) s.Generate();
  TSTRING r = s.Generate(len ? &cls : nullptr);
  said(r.data(), r.size());
  said(cls.data(), cls.size());
}
}
'''
K = {'C': 1, 'F': 2, 'N': 3, 'S': 4, 'M': 5}


def want(ops, name):
    ch, col = [], False
    for o in ops:
        if isinstance(o, int):
            ch.append(o)
        elif o == 'C' and not col or o == 'F':
            ch += ([] if col else [0]) + ([-2] if o == 'F' else [])
            col = True
    t = '[' + ('U' + ''.join(str(x) for x in sorted(ch)) if ch else '') + ''.join(x for x in 'NSM' if x in ops) + ']'
    return '(%s%s)' % (name, t) if name else t


def run(c):
    c.rule('The suffix is computed for each sequence of requests and compared with the one that lists the channels in ascending order and one letter for each thing that was requested.')
    at = 'INodeSuffixer::Generate (MAXex/NodeSuffix.h)'
    seqs = [list(p) for n in range(6) for p in itertools.combinations('CFNSM', n)]
    seqs += [['F', 'C'], ['F', 'F'], ['C', 'C'], ['M', 'S', 'N'], ['S', 'N', 'S', 'N'], ['M', 'M']]
    seqs += [[1], [7, 3], [3, 7], ['C', 1, 2], [2, 1, 'C'], [99, 'F', 1, 'N'], [-5, 4, -6, 'F'], [10, 9], [100, 20, 3], [1, 1], [2147483647, -2147483648], ['S', 5, 'M', 4, 'N', 3, 'C'], [4, 3, 2, 1, 0]]
    seqs += [list(p) for p in itertools.product(['C', 'F', 5], repeat=3)] + [list(p) for p in itertools.product('CF', repeat=4)]
    big = [(k * 7 + 3) % 23 for k in range(23)]
    seqs += [big, big + ['F', 'M'], list(range(20, 0, -1)), [k * 37 % 41 for k in range(41)]]
    if c.tier == 'thorough':
        seqs += [list(p) for p in itertools.product(['C', 'F', 5, 2, 'N', 'M'], repeat=3)] + [list(p) for p in itertools.permutations([4, 1, 3, 2, 0])]
    for wide in (False, True):
        mod = ir.unit(text=SRC, name='W03w' if wide else 'W03', flags=['-DUNICODE'] if wide else [])
        seen = set()
        for q, ops in enumerate(seqs):
            if wide and any(isinstance(o, int) and len(str(o)) > 3 for o in ops):
                continue        # the texts of wide numbers are stored in place up to three characters
            if wide and q % 3 and c.tier != 'thorough':
                continue
            for name in ('', 'Cls', 'A class with a long name'):
                if name and q % 4 and c.tier != 'thorough':
                    continue
                key = '%s%s%s' % ('wide: ' if wide else '', ' '.join(map(str, ops)) or 'nothing', ' of %s' % name if name else '')
                with c.part(key):
                    s = S(mod, budget=20000000)
                    s.it.globals_initial = True
                    cstring_models(s)
                    log = []
                    w = 4 if wide else 1

                    def said(it, dem, i, args, mem):
                        if it.cond:
                            raise prov.Unsupported('output under an unknown condition')
                        n = it.c.cval(args[1])
                        b = [x for k in range(n * w) for x in it.cell(it.obj(mem, args[0].base), args[0].off + k, args[0].base)]
                        v = [it.c.cval(Word(b[8 * w * k:8 * w * k + 8 * w])) for k in range(n)]
                        log.append(''.join(chr(x) for x in v) if None not in v else None)
                    s.it.models.append((re.compile(r'^said$'), said))

                    def number(it, dem, i, args, mem):
                        f = [it.c.cval(Word(sum((list(it.cell(it.obj(mem, args[3].base), args[3].off + k * w + j, args[3].base)) for j in range(w)), []))) for k in range(3)]
                        v = it.c.cval(args[4])
                        if f not in ([37, 100, 0], [37, 105, 0]) or v is None:
                            raise prov.Unsupported('a number that is not printed as a plain integer')
                        t = str(v - (1 << 32) if v >> 31 & 1 else v)
                        r = it.ptr(args[0])
                        it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), i)
                        it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(len(t), 64), i)
                        for k, b in enumerate(t + '\0'):
                            it.store(mem, Ptr(r.base, r.off + 16 + k * w), ['i', 8 * w], it.c.cw(ord(b), 8 * w), i)
                    s.it.models.append((re.compile(r'__to_xstring<'), number))
                    s.buf('ops', 8 * len(ops) + 8)
                    for k, o in enumerate(ops):
                        s.setc('ops', 8 * k, 0 if isinstance(o, int) else K[o], 4)
                        s.setc('ops', 8 * k + 4, o & 0xffffffff if isinstance(o, int) else 0, 4)
                    s.buf('name', len(name) * w + 4)
                    for k, ch in enumerate(name):
                        s.setc('name', k * w, ord(ch), w)
                    mm, _ = s.run('gen', [Ptr('ops'), s.c.cw(len(ops), 32), Ptr('name'), s.c.cw(len(name), 64), s.c.cw(q & 1, 1)])
                    seen |= s.it.visited
                    c.ob(key, mm is not None and log == [want(ops, name), name], '%r instead of %r' % (log, want(ops, name)), at)
        c.unit('W03 driver%s (MAXex/NodeSuffix.h)' % (' with UNICODE' if wide else ''), mod, seen)
