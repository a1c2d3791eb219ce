"""C26: tasks shared among processes, and results gathered from them."""
import contextlib
import io
import os
import pickle
import random
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
from core import Sub, Violation, check, close, expect_raises, ok
from props import c24
from props.c24 import formulae_of, keyed, prepare

TARGETS = ['py']
ASSUMPTIONS = [
    'Processes are simulated by threads of which one runs at a time; they '
    'switch only where they communicate.',
    'Every process makes the same sequence of collective calls; a call '
    'returns as soon as MPI allows, or as late.',
]


# -- shares ------------------------------------------------------------------------------

@st.composite
def shares_strategy(draw):
    big = draw(st.booleans())
    return {
        'tasks': draw(st.integers(1, 10**6 if big else 60)),
        'procs': draw(st.integers(1, 500 if big else 70)),
        'numpy': draw(st.booleans()),
        'lists': draw(st.lists(st.integers(0, 9), min_size=1, max_size=12)),
        'junk': draw(gen.scalars(None, 'float', 'str', 'none', 'zero',
                                 'negative')),
        'which': draw(st.integers(0, 1)),
    }


def run_shares(case):
    from triumvirate._mpitools import allocate_tasks, distribute_tasks
    tasks, procs = case['tasks'], case['procs']
    total = np.int64(tasks) if case['numpy'] else tasks
    shares = allocate_tasks(total, procs)
    check(len(shares) == procs, f'{len(shares)} shares for {procs} processes')
    check(all(int(s) == s and s >= 0 for s in shares), f'shares {shares}')
    check(sum(int(s) for s in shares) == tasks,
          f'{sum(shares)} of {tasks} tasks shared')
    check(max(shares) - min(shares) <= 1, f'uneven shares {shares}')

    def follow(segments, shares):
        check(len(segments) == len(shares), f'{len(segments)} segments')
        at = 0
        for i, (seg, n) in enumerate(zip(segments, shares)):
            check(isinstance(seg, slice) and seg.step in (None, 1)
                  and seg.start == at and seg.stop == at + n,
                  f'segment {i}: {seg} after {at}, of {n} tasks')
            at += n
        pool = list(range(min(at, 10**4)))
        if at <= 10**4:
            done = [t for seg in segments for t in pool[seg]]
            check(done == pool, 'tasks done')
    follow(distribute_tasks(task_total=total, proc_total=procs), shares)
    follow(distribute_tasks(ntasks=shares), shares)
    mine = case['lists']
    follow(distribute_tasks(ntasks=list(mine)), mine)
    follow(distribute_tasks(list(mine), task_total=tasks, proc_total=procs),
           mine)
    if case['junk']:
        bad = {'float': float(tasks), 'str': str(tasks), 'none': None,
               'zero': 0, 'negative': -tasks}[case['junk']]
        args = [tasks, procs]
        args[case['which']] = bad
        kind = ValueError if case['junk'] in ('zero', 'negative') \
            else TypeError
        expect_raises(kind, lambda: allocate_tasks(*args), f'{args}')
        expect_raises(kind, lambda: distribute_tasks(
            task_total=args[0], proc_total=args[1]), f'{args}')
    return ok(procs > 1, 'more processes' if procs > tasks else 'more tasks',
              'remainder' if tasks % procs else 'even')


# -- processes ---------------------------------------------------------------------------

class Stop(BaseException):
    """Ends the threads after a failure."""


class World:
    """Ranks that run one at a time and meet in collective calls."""

    def __init__(self, size, rng, eager):
        self.size, self.rng, self.eager = size, rng, eager
        self.lock = threading.Condition()
        self.turn = None
        self.calls = []          # one dictionary for every collective call
        self.at = [0]*size       # calls made by every rank
        self.ready = [lambda: True for _ in range(size)]
        self.over = [False]*size
        self.error = None
        self.result = [None]*size

    def choose(self):
        """Hand the baton to a rank that can go on."""
        can = [i for i in range(self.size)
               if not self.over[i] and self.ready[i]()]
        if can:
            self.turn = can[int(self.rng.integers(len(can)))]
        else:
            self.turn = None
            if not all(self.over) and self.error is None:
                self.error = Violation(
                    'processes wait for each other for ever, after '
                    + ', '.join(f'{n} calls' for n in self.at))
        self.lock.notify_all()

    def wait(self, rank, ready):
        with self.lock:
            self.ready[rank] = ready
            self.choose()
            while self.turn != rank and self.error is None:
                self.lock.wait()
            if self.error is not None:
                raise Stop

    def fail(self, error):
        with self.lock:
            self.error = self.error or error
            self.lock.notify_all()
        raise Stop

    def enter(self, rank, name, root, value):
        """Take part in the next collective call."""
        n = self.at[rank]
        self.at[rank] += 1
        if n == len(self.calls):
            self.calls.append({'name': name, 'root': root, 'values': {}})
        call = self.calls[n]
        if (call['name'], call['root']) != (name, root):
            self.fail(Violation(
                f"rank {rank} calls {name} (root {root}) where others call "
                f"{call['name']} (root {call['root']})"))
        call['values'][rank] = value
        return call

    def start(self, jobs):
        def go(rank):
            try:
                with self.lock:
                    while self.turn != rank and self.error is None:
                        self.lock.wait()
                if self.error is None:
                    self.result[rank] = jobs[rank]()
            except Stop:
                pass
            except BaseException as e:
                with self.lock:
                    self.error = self.error or e
            with self.lock:
                self.over[rank] = True
                if self.error is None:
                    self.choose()
                else:
                    self.lock.notify_all()
        threads = [threading.Thread(target=go, args=(i,), daemon=True)
                   for i in range(self.size)]
        for t in threads:
            t.start()
        with self.lock:
            self.choose()
        for t in threads:
            t.join()
        if self.error is not None:
            raise self.error
        check(len(set(self.at)) == 1, f'collective calls made: {self.at}')
        return self.result


class Comm:
    """The part of an MPI communicator that programs may rely on."""

    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def meet(self, name, root, value, needs):
        w = self.world
        call = w.enter(self.rank, name, root, value)
        if not w.eager:
            needs = range(self.size)
        w.wait(self.rank, lambda: all(i in call['values'] for i in needs))
        return call['values']

    def everyone(self):
        return range(self.size)

    def barrier(self):
        self.meet('barrier', 0, None, self.everyone())

    Barrier = barrier

    def bcast(self, obj, root=0):
        data = pickle.dumps(obj) if self.rank == root else None
        return pickle.loads(self.meet('bcast', root, data, [root])[root])

    def gather(self, sendobj, root=0):
        mine = self.rank == root
        values = self.meet('gather', root, pickle.dumps(sendobj),
                           self.everyone() if mine else [])
        return [pickle.loads(values[i]) for i in self.everyone()] if mine \
            else None

    def allgather(self, sendobj):
        values = self.meet('allgather', 0, pickle.dumps(sendobj),
                           self.everyone())
        return [pickle.loads(values[i]) for i in self.everyone()]

    def scatter(self, sendobj, root=0):
        data = None
        if self.rank == root:
            if len(sendobj) != self.size:
                raise ValueError('one object for every process expected')
            data = [pickle.dumps(v) for v in sendobj]
        values = self.meet('scatter', root, data, [root])
        return pickle.loads(values[root][self.rank])

    def reduce(self, sendobj, op=None, root=0):
        got = self.gather(sendobj, root)
        if got is None:
            return None
        total = got[0]
        for v in got[1:]:
            total = total + v if op is None else op(total, v)
        return total

    def allreduce(self, sendobj, op=None):
        return self.bcast(self.reduce(sendobj, op))

    def Bcast(self, buf, root=0):
        data = np.array(buf) if self.rank == root else None
        got = self.meet('Bcast', root, data, [root])[root]
        if self.rank != root:
            if np.asarray(buf).nbytes < got.nbytes:
                raise ValueError('message truncated')
            buf.ravel()[:got.size] = got.ravel().view(buf.dtype)

    def Gather(self, sendbuf, recvbuf, root=0):
        size = np.asarray(sendbuf).size
        if self.rank != root:
            return self.Gatherv(sendbuf, None, root)
        return self.Gatherv(sendbuf, (recvbuf, [size]*self.size), root)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        send = np.asarray(sendbuf)
        if send.size and not send.flags.c_contiguous:
            raise ValueError('contiguous buffer expected')
        mine = self.rank == root
        values = self.meet('Gatherv', root, send.copy().ravel(),
                           self.everyone() if mine else [])
        if not mine:
            return
        buf, *spec = recvbuf
        if len(spec) == 1 and isinstance(spec[0], tuple):
            spec = spec[0]
        sizes = list(spec[0])
        offsets = spec[1] if len(spec) > 1 and spec[1] is not None else [
            sum(sizes[:i]) for i in range(len(sizes))]
        if not (buf.flags.c_contiguous
                and len(sizes) == len(offsets) == self.size):
            raise ValueError('sizes and offsets of all processes expected')
        flat = buf.reshape(-1)
        flat[...] = np.nan if flat.dtype.kind in 'fc' else -1
        for i in self.everyone():
            v = values[i]
            if v.dtype != flat.dtype and v.size:
                raise Violation(
                    f'{v.dtype} sent and {flat.dtype} expected')
            if v.size > sizes[i] or offsets[i] + v.size > flat.size:
                raise Violation(
                    f'message of rank {i} truncated: {v.size} numbers for '
                    f'{sizes[i]} at {offsets[i]} of {flat.size}')
            flat[offsets[i]:offsets[i] + v.size] = v


# -- gathered matrices ---------------------------------------------------------------------

@st.composite
def gather_strategy(draw):
    case = draw(c24.matrix_strategy())
    case['n'] = 4
    if not isinstance(case['formulae'], str):
        case['r'] = draw(gen.scalars('given', 'given', 'none'))
    case['size'] = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    case['root'] = draw(st.integers(0, 39)) if draw(st.booleans()) else 0
    case['eager'] = draw(st.booleans())
    case['threaded'] = draw(gen.scalars(None, None, None, False, True))
    case['omp'] = draw(gen.scalars(None, '1', '2', '3'))
    case['schedule'] = draw(gen.seeds())
    return case


@contextlib.contextmanager
def environment(name, value):
    old = os.environ.get(name)

    def put(v):
        if v is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = v
    put(value)
    try:
        yield
    finally:
        put(old)


def run_gather(case):
    model, need_q, need_z, with_ic, ks, rQ, Q, B, kw, rng = prepare(case)
    from triumvirate.winconv import BispecWinConv
    f = case['forms']
    columns = sum(len(x)**2 for x in ks.values())
    if not need_z or columns > 80:
        return ok(False, 'too many columns')
    if case['r'] == 'none' and not set(model) <= set(need_z):
        return ok(False, 'open separations')
    zero = (0, 0, 0)
    if with_ic and case['flag'] and (
            zero not in need_z or zero not in need_q):
        return ok(False, 'no monopole')
    if case['r'] == 'given':
        kw['r_common'] = np.geomspace(2., 10., case['n'])
    if case['k_out'] == 'given':
        kw['k_out'] = np.linspace(.2, .4, 3)
    opts = {n: case[c] for n, c in (
        ('ic', 'flag'), ('concat', 'concat'), ('diag', 'diag'))
        if case[c] is not None}
    size = case['size']
    root = case['root'] % size
    random.seed(case['schedule'])

    def make(**more):
        kwargs = dict(kw, **more)
        if case['threaded'] is not None:
            kwargs['transform_kwargs'] = dict(
                kwargs.get('transform_kwargs', {}), threaded=case['threaded'])
        return BispecWinConv(
            formulae_of(case['formulae'], f[0], case['obj']),
            rQ[need_q[0]] if case['common_q'] else keyed(rQ, f[1]),
            keyed(Q, f[2]),
            ks[need_z[0]] if case['k'] == 'common' else keyed(ks, f[3]),
            **kwargs)
    world = World(size, np.random.default_rng(case['schedule']),
                  case['eager'])
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            environment('OMP_NUM_THREADS', case['omp']):
        warnings.simplefilter('ignore')
        serial = make()
        if np.any(np.diff(serial.k_out) <= 0):
            return ok(False, 'disjoint ranges')
        want = serial.gen_winconv_mat(**opts)

        def job(rank):
            def go():
                more = {'comm': Comm(world, rank)}
                if root or case['eager']:
                    more['comm_root'] = root
                w = make(**more)
                out = w.gen_winconv_mat(**opts)
                # what comes after is as before
                again = w.convolve(B, **({} if case['flag']
                                         else {'ic': 0.}))
                return out, again
            return go
        got = world.start([job(i) for i in range(size)])
        check(os.environ.get('OMP_NUM_THREADS') == case['omp'],
              f"OMP_NUM_THREADS={os.environ.get('OMP_NUM_THREADS')} after, "
              f"{case['omp']} before")
        after = serial.convolve(B, **({} if case['flag'] else {'ic': 0.}))
    for i in range(size):
        if i != root:
            check(got[i][0] is None, f'rank {i} returned {got[i][0]!r}')
        for m, v in after.items():
            close(got[i][1][m], v, f'rank {i} convolution {m}', rtol=1e-12,
                  scale='max')
    mine = got[root][0]
    if case['concat']:
        check(isinstance(mine, np.ndarray) and mine.shape == want.shape,
              f'matrix {type(mine)}')
        mine, want = {'all': mine}, {'all': want}
    check(list(mine) == list(want), f'multipoles {list(mine)}, {list(want)}')
    for m in want:
        close(np.asarray(mine[m]), want[m], f'gathered matrix of {m}',
              rtol=1e-12, scale='max')
    return ok(size > 1, 'more processes' if size > columns else 'more tasks',
              'root 0' if root == 0 else 'another root',
              'eager' if case['eager'] else 'late',
              'concatenated' if case['concat'] else 'separate')


# -- warnings ------------------------------------------------------------------------------

class Custom(UserWarning):
    pass


CATEGORIES = (UserWarning, RuntimeWarning, Custom)


@st.composite
def warnings_strategy(draw):
    return {
        'records': draw(st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 2), st.integers(0, 1),
            st.integers(1, 3)).map(list), max_size=12)),
        'unique': draw(gen.scalars(None, True, False)),
        'show': draw(gen.scalars(None, True, False)),
        'size': draw(st.integers(0, 4)), 'root': draw(st.integers(0, 3)),
    }


def run_warnings(case):
    from triumvirate._mpitools import restore_warnings
    made = []
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        for text, cat, name, line in case['records']:
            warnings.warn_explicit(f'text {text}', CATEGORIES[cat],
                                   f'file{name}.py', line)
            made.append((f'text {text}', CATEGORIES[cat], f'file{name}.py',
                         line))
    want = made if case['unique'] is False else list(dict.fromkeys(made))
    kw = {n: case[n] for n in ('unique', 'show') if case[n] is not None}
    size = case['size']
    root = case['root'] % max(size, 1)

    def tell(w):
        return str(w.message), w.category, w.filename, w.lineno
    for rank in range(max(size, 1)):
        if size:
            kw['comm'] = Comm(World(size, None, False), rank)
            if root:
                kw['comm_root'] = root
        with warnings.catch_warnings(record=True) as shown:
            warnings.simplefilter('always')
            out = restore_warnings(list(caught), **kw)
        check([tell(w) for w in out] == want, f'restored {out}')
        told = want if case['show'] is not False and (
            not size or rank == root) else []
        check([tell(w) for w in shown] == told,
              f'rank {rank} shows {[tell(w) for w in shown]}')
    return ok(len(made) > 1, 'repeated' if len(made) > len(want) else 'plain',
              f'{size} processes')


CHECKS = [
    Sub('shares', shares_strategy, run_shares, 2000, 50000, shards=2,
        rule='more than one process'),
    Sub('gather', gather_strategy, run_gather, 300, 6000, shards=4,
        rule='more than one process and a matrix generated'),
    Sub('warnings', warnings_strategy, run_warnings, 500, 5000,
        rule='more than one warning'),
]
