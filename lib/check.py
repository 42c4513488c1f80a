"""Obligation bookkeeping, evidence, known findings and the exit protocol."""
import contextlib, json, os, re, resource, signal, sys, time, traceback
import ir
from ir import AnalysisBroken, CompileError, NoReturn

VERIF = ir.VERIF
# a part, and the whole run, must come to an end (seconds)
PART, WHOLE = (240, 780) if os.environ.get('VERIF_TIER', 'quick') == 'quick' else (1800, 7200)


def limit(part, t0):
    rest = max(1, t0 + WHOLE - time.time())
    signal.setitimer(signal.ITIMER_REAL, min(part, rest) if part else rest)


def alarm(*a):
    raise AnalysisBroken('out of time')


class Check:
    def __init__(self, pid, min_obligations=1):
        self.pid = pid
        self.obs = []
        self.units = []
        self.funcs = set()
        self.rules = []
        self.assume = []
        self.min = min_obligations
        self.notes = []
        self.t0 = time.time()
        self.lost = []
        self.inpart = False

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    @contextlib.contextmanager
    def part(self, key):
        """isolates a group of obligations: if the group cannot be analysed the others
        still are; the run as a whole is then without a verdict unless another
        obligation fails"""
        outer = self.inpart
        self.inpart = True
        if not outer:
            limit(PART, self.t0)
        try:
            yield
        except NoReturn as e:
            self.ob('%s: returns' % (key,), False, '%s throws or aborts on every path' % e, str(e))
        except AnalysisBroken as e:
            self.lost.append('%s: %s' % (key, e))
        except Exception as e:
            self.lost.append('%s: %s %s' % (key, traceback.format_exception_only(type(e), e)[-1].strip(), traceback.format_tb(e.__traceback__)[-1].strip()))
        finally:
            self.inpart = outer
            if not outer:
                limit(None, self.t0)

    def assumption(self, text):
        if text not in self.assume:
            self.assume.append(text)

    def ob(self, key, ok, detail='', where=''):
        """one proof obligation: a stable key, the verdict, and for a failed one
        which construct breaks the rule"""
        self.obs.append((key, bool(ok), detail, where))
        return bool(ok)

    def unit(self, name, mod, visited=None):
        self.units.append(name)
        for f in mod.funcs.values():
            if not f.decl and (visited is None or f.name in visited):
                self.funcs.add(f.dem.split('(')[0][:160])


def reachable(C, cond):
    """is the path condition satisfiable?  None if it depends on terms that cannot be tabulated"""
    r = 1
    for l in cond:
        r = C.AND(r, l)
    if r <= 1:
        return bool(r)
    leaves = sorted(C.deps(r))
    if len(leaves) > 16 or any(C.terms[t][0] != 'in' for t, _ in leaves):
        return None
    from tab import Tab, np
    t = Tab(C, 1 << len(leaves))
    try:
        for j, (tm, k) in enumerate(leaves):
            t.setbits([C.atoms(tm, k + 1)[k]], (np.arange(1 << len(leaves)) >> j) & 1)
        return bool(t.bit(r).any()) if not getattr(t, 'undefined', 0) else None
    except AnalysisBroken:
        return None


def memory(c):
    """memory errors seen by the dataflow evaluations of the check"""
    import prov
    if not prov.NACC[0]:
        return
    c.rule('All loads and stores of the evaluations are checked against the bounds and the lifetime of the object they reach.')
    seen = {}
    for what, ins, cond, ctx in prov.OOB:
        k = '%s at %s' % (what, ir.loc_str(ins))
        if not seen.get(k):
            try:
                seen[k] = reachable(ctx, cond)
            except Exception:
                seen[k] = None
    for k in sorted(seen)[:20]:
        if seen[k]:
            c.ob('memory: ' + k, False, 'on a path of this evaluation', k.rsplit(' at ', 1)[-1])
    c.ob('memory: every access with a known address is inside a live object', not any(seen.values()), '%d accesses' % prov.NACC[0])
    c.notes.append('%d loads and stores examined; %d possible errors on paths that could not be decided' % (prov.NACC[0], sum(v is None for v in seen.values())))


def known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(".*?"|\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r[m.group(2).strip('"')] = m.group(3)
    return r


def main(pid, fn, min_obligations, level='other'):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, min_obligations)
    c.tier = tier
    broken = None
    signal.signal(signal.SIGALRM, alarm)
    limit(None, c.t0)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        fn(c)
    except NoReturn as e:
        c.ob('the calls return', False, '%s throws or aborts on every path' % e, str(e))
        broken = 'stopped at %s' % e
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    memory(c)
    import prov
    if prov.WANTED[0] != prov.EVENTS.get('load', 0) + prov.EVENTS.get('store', 0):
        broken = broken or 'the record of accesses is incomplete'
    if c.lost and not broken:
        broken = '; '.join(c.lost[:10])
    bad = [o for o in c.obs if not o[1]]
    kn = known(pid)
    newbad = [o for o in bad if o[0] not in kn]
    if len(c.obs) < min_obligations and not broken:
        broken = 'only %d obligations were generated, %d confirmed on the reference tree: an anchor has vanished' % (
            len(c.obs), min_obligations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = [o[0] for o in c.obs[:3]] + [o[0] for o in c.obs[-3:]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': 'Static analysis of the current /repo sources (clang IR of units instantiating the code; nothing is '
                           'executed). ' + ' '.join(c.rules),
            'units': c.units,
            'functions_analysed': len(c.funcs),
            'function_samples': sorted(c.funcs)[:12],
            'obligations': len(c.obs),
            'discharged': len(c.obs) - len(bad),
            'known_findings': [o[0] for o in bad if o[0] in kn],
            'samples': samples,
            'notes': c.notes,
        },
        'assumptions': c.assume,
        'violations': len(newbad),
        'wall_s': round(time.time() - c.t0, 2),
    }
    if broken:
        ev['coverage']['analysis_broken'] = broken[:2000]
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in bad:
        if o[0] in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[o[0]], o[0]))
    if newbad:
        rp = os.path.join(VERIF, 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + '.txt')
        with open(path, 'w') as f:
            for k, _, d, w in newbad:
                f.write('%s\n  where: %s\n  %s\n' % (k, w, d))
        for k, _, d, w in newbad[:20]:
            print('  broken: %s [%s] %s' % (k, w, d[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, broken))
        return 2
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (pid, len(c.obs), len(c.funcs), time.time() - c.t0))
    return 0
