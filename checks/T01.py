"""Threaded queues: every task runs exactly once and is finished when the queue returns."""
import ir
from drv import *

MIN = 200
SRC = r'''
#include <algorithm>
#include <chrono>
#include <atomic>
#include <functional>
#include <future>
#include <mutex>
#include <tuple>
#include <thread>
#include <vector>
// std::future, std::async and std::thread as opaque operations; the work of a task is done when it is started or when it is seen to be finished
struct Work { void (*fn)(void *) = nullptr; void *ctx = nullptr; void run() { if (fn) { auto f = fn; fn = nullptr; f(ctx); } } };
bool rig_eager();
void rig_ctor(void *); void rig_move(void *, void *); void rig_assign(void *, void *); void rig_dtor(void *); void rig_wait(const void *); void rig_get(const void *); bool rig_ready(const void *); bool rig_valid(const void *);
template <class T> struct RigFuture { mutable Work w; RigFuture() { rig_ctor(this); }
  RigFuture(RigFuture &&o) : w(o.w) { o.w = Work(); rig_move(this, &o); }
  RigFuture &operator=(RigFuture &&o) { if (this != &o) { w.run(); w = o.w; o.w = Work(); rig_assign(this, &o); } return *this; }
  ~RigFuture() { w.run(); rig_dtor(this); } bool valid() const { return rig_valid(this); } void wait() const { w.run(); rig_wait(this); } T get() { w.run(); rig_get(this); }
  bool ready() const { if (!rig_ready(this)) return false; w.run(); return true; } template <class R, class P> std::future_status wait_for(const std::chrono::duration<R, P> &) const { return ready() ? std::future_status::ready : std::future_status::timeout; }
  template <class R, class P> std::future_status wait_until(const std::chrono::time_point<R, P> &) const { return ready() ? std::future_status::ready : std::future_status::timeout; } };
void rig_start(void *f, bool async);
unsigned rig_threads();
template <class F, class T, size_t... I> void rig_call(F &f, T &t, std::index_sequence<I...>) { std::__invoke(std::move(f), std::move(std::get<I>(t))...); }
template <class F, class... A> Work rig_work(F &&f, A &&...a) {
  auto call = [f = std::decay_t<F>(std::forward<F>(f)), t = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable { rig_call(f, t, std::index_sequence_for<A...>()); };
  using C = decltype(call);
  Work w;
  w.ctx = new C(std::move(call));
  w.fn = [](void *p) { C *c = static_cast<C *>(p); (*c)(); delete c; };
  if (rig_eager()) w.run();
  return w;
}
void thread_start(void *); void thread_move(void *, void *); void thread_join(void *); void thread_detach(void *); void thread_end(void *); bool thread_joinable(const void *);
void job(size_t, int *);
struct Job { void operator()(size_t) const; };
namespace std {
template <class F, class... A> ::RigFuture<void> RigAsync(launch l, F &&f, A &&...a) { ::RigFuture<void> r; rig_start(&r, l == launch::async); r.w = rig_work(std::forward<F>(f), std::forward<A>(a)...); return r; }
struct RigThread { Work w; static unsigned hardware_concurrency() { return rig_threads(); }
  RigThread() {} template <class F, class... A> explicit RigThread(F &&f, A &&...a) { thread_start(this); w = rig_work(std::forward<F>(f), std::forward<A>(a)...); }
  RigThread(RigThread &&o) : w(o.w) { o.w = Work(); thread_move(this, &o); } RigThread &operator=(RigThread &&o) { thread_end(this); w = o.w; o.w = Work(); thread_move(this, &o); return *this; }
  bool joinable() const { return thread_joinable(this); } void join() { w.run(); thread_join(this); } void detach() { thread_detach(this); } ~RigThread() { thread_end(this); } };
template <class T> using RigFut = ::RigFuture<T>;
}
#define future RigFut
#define async RigAsync
#define thread RigThread
#include "datas/multi_thread.hpp"
#undef future
#undef async
#undef thread
'''
# std::launch::async must stay what it is
SRC = SRC.replace('#define async RigAsync\n', '''#define async RigAsync
namespace std { struct RigLaunch { static constexpr launch RigAsync = launch(1), deferred = launch(2); }; }
#define launch RigLaunch
''').replace('#undef async\n', '#undef async\n#undef launch\n') + '''
extern "C" void queue(size_t n) { RunThreadedQueue(n, Job()); }
extern "C" void queue_lambda(size_t n, int *p) { RunThreadedQueue(n, [&](size_t t) { job(t, p); }); }
'''


def run(c):
    c.rule('The scheduler runs with std::future and std::async as opaque operations for every number of processors and tasks and every order in which tasks turn out to be ready (up to a length, then all are ready); '
           'the sequence of started tasks and the state of every task on return are compared with the definition.')
    c.assumption('a task started by std::async(std::launch::async) runs once with a copy of its argument; wait returns when it is finished; tasks do not throw')
    mod = ir.unit(text=SRC, name='T01', flags=['-D_GLIBCXX_EXTERN_TEMPLATE=0'])
    seen = set()

    def go(n, hw, script, fn, eager):
        s = S(mod, budget=120000 + 200 * n)
        st = dict(script=list(script), task={}, thread={}, started=[], bad='', polls=0)

        def ctor(it, dem, i, args, mem):
            st['task'][it.ptr(args[0])] = 0

        def move(it, dem, i, args, mem):
            p, q = it.ptr(args[0]), it.ptr(args[1])
            st['task'][p] = st['task'].get(q, 0)
            st['task'][q] = 0

        def dtor(it, dem, i, args, mem):
            st['task'].pop(it.ptr(args[0]), None)

        def start(it, dem, i, args, mem):
            a = it.c.cval(args[1])
            if it.cond:
                st['bad'] = 'a task is started under an unknown condition'
            st['task'][it.ptr(args[0])] = 1
            if not a:
                st['bad'] = 'a task is not started asynchronously'

        def job(it, dem, i, args, mem):
            t = it.c.cval(args[-2 if fn != 'queue' else -1])
            st['started'].append(t)
            if it.cond:
                st['bad'] = 'a task runs under an unknown condition'
            if fn != 'queue' and it.ptr(args[-1]) != Ptr('P'):
                st['bad'] = 'a task with wrong captures'

        def wait(it, dem, i, args, mem):
            if not st['task'].get(it.ptr(args[0])):
                st['bad'] = 'wait for a future without task'
            elif 'rig_get' in dem:
                st['task'][it.ptr(args[0])] = 0

        def ready(it, dem, i, args, mem):
            t = st['task'].get(it.ptr(args[0]))
            if not t:
                st['bad'] = 'wait for a future without task'
            st['polls'] += 1
            if st['polls'] > 20000 + 2 * n:
                raise Forever()
            r = t == 2 or (st['script'].pop(0) if st['script'] else 1)
            if r:
                st['task'][it.ptr(args[0])] = 2
            return it.c.cw(int(r), 1)

        def valid(it, dem, i, args, mem):
            return it.c.cw(int(bool(st['task'].get(it.ptr(args[0])))), 1)

        def thread(it, dem, i, args, mem):
            p = it.ptr(args[0])
            k = dem.split('(')[0]
            on = st['thread'].get(p, False)
            if k == 'thread_joinable':
                return it.c.cw(int(on), 1)
            if k == 'thread_start':
                st['thread'][p] = True
            elif k == 'thread_move':
                q = it.ptr(args[1])
                st['thread'][p] = st['thread'].get(q, False)
                st['thread'][q] = False
            elif k == 'thread_join':
                if not on:
                    st['bad'] = 'joins a thread that does not run'
                st['thread'][p] = False
            elif k == 'thread_detach':
                st['bad'] = 'a thread is detached'
            elif on:
                st['bad'] = 'a thread that runs is destroyed'
        A = s.it.models.append
        A((re.compile(r'^rig_(move|assign)'), move))
        A((re.compile(r'^rig_ctor'), ctor))
        A((re.compile(r'^rig_dtor'), dtor))
        A((re.compile(r'^rig_ready'), ready))
        A((re.compile(r'^rig_valid'), valid))
        A((re.compile(r'^rig_(wait|get)\('), wait))
        A((re.compile(r'^rig_eager'), lambda it, dem, i, args, mem: it.c.cw(int(eager), 1)))
        A((re.compile(r'^(Job::operator\(\)|job\()'), job))
        A((re.compile(r'^thread_'), thread))
        A((re.compile(r'^rig_start'), start))
        A((re.compile(r'^rig_threads'), lambda it, dem, i, args, mem: it.c.cw(hw, 32)))
        A((re.compile(r'^(std::this_thread::yield|sched_yield|nanosleep|usleep|std::this_thread::sleep)'), lambda it, dem, i, args, mem: it.c.cw(0, 32)))
        try:
            m, _ = s.run(fn, [s.const(n, 64)] + ([s.buf('P')] if fn != 'queue' else []))
            st['returned'] = m is not None
        except Forever:
            st['returned'] = False
        except prov.Unsupported as e:
            if 'budget' not in str(e) and 'loop' not in str(e):
                raise
            st['returned'] = False
            st['bad'] = 'no progress: ' + str(e)
        seen.update(s.it.visited)
        return st

    def check(n, hw, script, fn='queue'):
        for eager in (0, 1):
            st = go(n, hw, script, fn, eager)
            d = ''
            if sorted(st['started'], key=str) != sorted(range(n), key=str):
                d = 'tasks that ran: %s' % st['started']
                if not st['returned']:
                    d += ', never returns'
            elif not st['returned']:
                d = 'never returns'
            elif st['bad']:
                d = st['bad']
            elif any(st['thread'].values()):
                d = 'returns before its threads end'
            if d:
                return d + (' (tasks end as soon as possible)' if eager else ' (tasks end as late as possible)')
        return ''
    bits = 4 if c.tier == 'quick' else 7
    for hw in (0, 1, 2, 3, 4) if c.tier == 'quick' else (0, 1, 2, 3, 4, 8, 64):
        for n in (0, 1, 2, 3, 4, 5, 7) if c.tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 9, 20):
            with c.part('%d processors, %d tasks' % (hw, n)):
                scripts = [()] + [tuple((k >> b) & 1 for b in range(bits)) for k in range((1 << bits) - 1)] + [(0,) * 9] if n > hw >= 1 else [(), (0, 0)]
                for sc in scripts:
                    d = check(n, hw, sc)
                    c.ob('%d tasks on %d processors, ready %s' % (n, hw, ''.join(map(str, sc)) or 'at once'), not d, d, 'RunThreadedQueue')
    for hw, n in ((4, 300), (300, 300), (2, 1000)) + (((16, 70000),) if c.tier != 'quick' else ()):
        with c.part('many tasks'):
            d = check(n, hw, ())
            c.ob('%d tasks on %d processors' % (n, hw), not d, d[:200], 'RunThreadedQueue')
    for hw, n in ((2, 5), (0, 3), (1, 1)):
        with c.part('lambda'):
            d = check(n, hw, (0, 1, 0), 'queue_lambda')
            c.ob('%d tasks of a lambda on %d processors' % (n, hw), not d, d, 'RunThreadedQueue')
    c.unit('T01', mod, seen)


class Forever(Exception):
    pass
