"""C02: work distribution and shared data."""

import io
import sys

import numpy as np

from vmon.core import Check, Skip, fingerprint

check = Check('C02', 'A case is one program (random sizes, shapes, data types, '
    'options) run with one number of processes, node layout and pattern of '
    'delays, and also on a single process without MPI; distinct by these.')
check.parallel = True

TYPES = ['f8', 'c16', 'i8', 'i4', 'f4', 'c8', 'u1', '?', 'i2', 'u4', 'u8', 'i1']


def everywhere(ctx, x):
    """Collect what all processes see."""
    return ctx.comm.allgather(x)


def values(rng, shape, dtype):
    """Random data of any type."""
    dtype = np.dtype(dtype)
    if dtype.kind == '?' or dtype.kind == 'b':
        return rng.integers(2, size=shape).astype(dtype)
    if dtype.kind in 'iu':
        info = np.iinfo(dtype)
        return rng.integers(info.min, info.max, size=shape, dtype=dtype.newbyteorder('='),
            endpoint=True).astype(dtype)
    x = rng.normal(size=shape) * 10.0 ** rng.integers(-30, 30)
    if dtype.kind == 'c':
        x = x + 1j * rng.normal(size=shape)
    x = np.asarray(x).astype(dtype)
    if x.size and rng.integers(3) == 0:
        x.flat[rng.integers(x.size)] = rng.choice([np.nan, np.inf, -0.0])
    return x


def shapes(rng):
    n = int(rng.integers(0, 4))
    shape = tuple(map(int, rng.integers(1, 6, n)))
    if n and rng.integers(6) == 0:
        shape = shape[:-1] + (0,)
    return shape


def same(ctx, oracle, got, ref):
    """Same values (also if not a number), shape, and type."""
    ctx.equal(oracle + ': shape', np.shape(got), np.shape(ref))
    ctx.equal(oracle + ': type', np.asarray(got).dtype.newbyteorder('='),
        np.asarray(ref).dtype.newbyteorder('='))
    a = np.ascontiguousarray(got).astype(np.asarray(got).dtype.newbyteorder(
        '=')).tobytes()
    b = np.ascontiguousarray(ref).astype(np.asarray(ref).dtype.newbyteorder(
        '=')).tobytes()
    ctx.true(oracle, a == b, lambda: 'got %s, expected %s on rank %d' % (got,
        ref, ctx.comm.rank))


def groups(ctx, comm=None):
    """Members of communicators this process belongs to."""
    return comm.allgather(ctx.comm.rank)


@check.family(24)
def distribution(ctx, i):
    """Work items are assigned exactly once."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    kind = int(rng.integers(3))
    sub = comm
    if kind == 1:
        sub = elphmod.MPI.I
    elif kind == 2:
        sub = comm.Split(comm.rank % 2, key=comm.rank)
    for n in range(12):
        size = int(rng.choice([0, 1, 2, comm.size, int(rng.integers(60)),
            int(rng.integers(10 ** 6))]))
        chunks = None if rng.integers(2) else int(rng.integers(1, 20))
        want = bool(rng.integers(2))
        kw = dict(comm=sub) if kind or rng.integers(2) else {}
        if chunks is not None or rng.integers(2):
            kw['chunks'] = chunks
        out = elphmod.MPI.distribute(size, bounds=want, **kw)
        ctx.note(size=size, chunks=chunks, kind=kind)
        ctx.sig(size, chunks, kind, comm.size)
        sizes = out[0] if want else out
        count = sub.size if chunks is None else chunks
        ctx.equal('number of chunks', np.shape(sizes), (count,))
        ctx.true('whole numbers', sizes.dtype.kind == 'i', sizes.dtype)
        ctx.equal('nothing lost or duplicated', int(sizes.sum()), size)
        ctx.true('balanced', sizes.min() >= 0 and sizes.max() - sizes.min()
            <= 1, sizes)
        if want:
            ctx.equal('bounds', out[1].tolist(), np.cumsum([0,
                *sizes]).tolist())
        for x in sub.allgather(sizes.tolist()):
            ctx.equal('same on all processes', x, sizes.tolist())


@check.family(12)
def rows_and_columns(ctx, i):
    """Groups of processes."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    size = int(rng.integers(1, comm.size + 3))
    kw = {}
    world = comm
    if rng.integers(3) == 0:
        world = comm.Split(comm.rank % 2, key=-comm.rank)
        kw['comm'] = world
    ctx.note(size=size, split=bool(kw))
    col, row = elphmod.MPI.matrix(size, **kw)
    me = ctx.comm.rank
    order = world.allgather(me)
    c, r = groups(ctx, col), groups(ctx, row)
    for x in c, r:
        ctx.equal('this process appears once', x.count(me), 1)
        ctx.equal('order of processes', x, [y for y in order if y in x])
    ctx.equal('row and column meet once', sorted(set(c) & set(r)), [me])
    allc = world.allgather(tuple(c))
    allr = world.allgather(tuple(r))
    for x in allc, allr:
        ctx.equal('every process in one group', sorted(sum(set(x), ())),
            sorted(order))
    ctx.equal('number of columns', len(set(allc)), min(size, world.size))
    ctx.true('balanced columns', max(map(len, allc)) - min(map(len, allc))
        <= 1, allc)
    ctx.equal('longest row', max(map(len, allr)), min(size, world.size))
    # sum via columns and rows reaches everyone:
    x = np.array([2.0 ** me])
    y = np.empty_like(x)
    col.Allreduce(x, y)
    ctx.equal('sum over column', float(y[0]), float(sum(2.0 ** z for z in c)))


@check.family(12)
def nodes(ctx, i):
    """Communicators of processes with the same memory."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    shared = bool(rng.integers(4))
    node, images = elphmod.MPI.shm_split(comm, shared_memory=shared)
    per = 1 if ctx.conf is None else ctx.conf['per_node']
    me = comm.rank
    ctx.note(shared=shared)
    n, m = groups(ctx, node), groups(ctx, images)
    if shared:
        ctx.equal('processes on node', n, [x for x in range(comm.size)
            if x // per == me // per])
        ctx.equal('processes with same position on node', m,
            [x for x in range(comm.size) if x % per == me % per])
    else:
        ctx.equal('processes on node', n, [me])
        ctx.equal('processes with same position on node', m,
            list(range(comm.size)))
    ctx.equal('node and images meet once', sorted(set(n) & set(m)), [me])
    ctx.equal('first process', me == 0, node.rank == 0 and images.rank == 0)


@check.family(36)
def arrays(ctx, i):
    """Arrays shared within nodes."""
    import elphmod
    rng = ctx.rng
    world = comm = ctx.comm
    per = 1 if ctx.conf is None else ctx.conf['per_node']
    shape = shapes(rng)
    dtype = np.dtype(str(rng.choice(TYPES)))
    kw = {}
    single = rng.integers(4) == 0
    shared = bool(rng.integers(4))
    if single:
        kw['single_memory'] = True
    if not shared or rng.integers(2):
        kw['shared_memory'] = shared
    if rng.integers(4) == 0:
        kw['comm'] = elphmod.MPI.I
        comm = elphmod.MPI.I
    one = len(shape) == 1 and rng.integers(2)
    cls = bool(rng.integers(2))
    ctx.note(shape=shape, dtype=str(dtype), cls=cls, single=single,
        shared=shared, alone=comm is elphmod.MPI.I)
    arg = shape[0] if one else shape
    if dtype != float or rng.integers(2):
        kw['dtype'] = dtype if rng.integers(2) else dtype.type
    if cls:
        array = elphmod.MPI.SharedArray(arg, **kw)
        node, images = array.node, array.images
    else:
        node, images, array = elphmod.MPI.shared_array(arg, **kw)
    mine = not single or comm.rank == 0
    ctx.equal('type', array.dtype, dtype)
    ctx.equal('shape', array.shape, shape if mine else (0,))
    ctx.true('contiguous', array.flags.c_contiguous and array.flags.writeable,
        array.flags)
    ctx.equal('first process', comm.rank == 0, node.rank == 0 and images.rank
        == 0)
    data = values(rng, shape, dtype)
    for again in range(2):
        if comm.rank == 0:
            array[...] = data
        if cls and comm is world and not single and rng.integers(2):
            array.Bcast()
        else:
            if node.rank == 0:
                images.Bcast(array)
            comm.Barrier()
        if mine:
            same(ctx, 'broadcast data', array, data)
        comm.Barrier()
        data = data[::-1].copy() if data.ndim else data
    if single or not array.size:
        return
    # which processes see what this one has written?
    old = np.array(array)
    for rank in range(comm.size):
        mark = np.ones((), dtype=dtype) if not array.flat[0] == 1 \
            else np.zeros((), dtype=dtype)
        before = array.flat[0]
        comm.Barrier()
        if comm.rank == rank:
            array.flat[0] = mark
        comm.Barrier()
        visible = comm.rank == rank or (shared and comm is world
            and comm.rank // per == rank // per)
        now = array.flat[0]
        ctx.true('one memory per node' if visible else 'private memory',
            now == mark if visible else (now == before or (now != now)),
            'rank %d wrote %s, rank %d sees %s instead of %s' % (rank, mark,
            comm.rank, now, mark if visible else before))
        comm.Barrier()
    if cls and shape:
        part = array[:1]
        ctx.true('communicators of views', part.node is array.node
            and part.images is array.images)
        other = np.ndarray.view(np.arange(3), elphmod.MPI.SharedArray)
        ctx.equal('communicators of other arrays', (other.node.size,
            other.images.size), (1, world.size))


@check.family(8)
def several_arrays(ctx, i):
    """Different shared arrays do not overlap."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    made = []
    n = int(rng.integers(2, 6))
    ctx.note(arrays=n)
    for x in range(n):
        shape = shapes(rng)
        dtype = np.dtype(str(rng.choice(TYPES)))
        node, images, array = elphmod.MPI.shared_array(shape, dtype=dtype,
            shared_memory=bool(rng.integers(4)))
        made.append((node, images, array, values(rng, shape, dtype)))
    for x in rng.permutation(n):
        node, images, array, data = made[x]
        if comm.rank == 0:
            array[...] = data
        if node.rank == 0:
            images.Bcast(array)
    comm.Barrier()
    for node, images, array, data in made:
        same(ctx, 'independent data', array, data)
    comm.Barrier()


@check.family(30)
def loading(ctx, i):
    """Files with data."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    kw = {}
    if rng.integers(2):
        kw['shared_memory'] = bool(rng.integers(3))
    sub = comm
    if rng.integers(3) == 0:
        sub = kw['comm'] = elphmod.MPI.I
    kind = str(rng.choice(['binary', 'binary', 'order', 'text', 'absent']))
    ctx.note(kind=kind, **{k: str(v)[:5] for k, v in kw.items()})
    shape = shapes(rng)
    dtype = np.dtype(str(rng.choice(TYPES)))
    data = values(rng, shape, dtype)
    name = ctx.file('data.npy')
    if kind == 'order':
        data = np.asfortranarray(values(rng, tuple(map(int, rng.integers(2, 5,
            int(rng.integers(2, 4))))), dtype))
    if kind == 'text':
        kw['txt'] = True
        data = rng.normal(size=tuple(map(int, rng.integers(2, 6,
            int(rng.integers(1, 3))))))
        name = ctx.file('data.txt')
        ctx.once(np.savetxt, name, data, fmt='%.17g')
    elif kind == 'absent':
        kw['txt'] = bool(rng.integers(2))
        data = np.empty(0)
        comm.Barrier()
    else:
        ctx.once(np.save, name, data)
    got = elphmod.MPI.load(name, **kw)
    ctx.note(shape=data.shape, dtype=str(data.dtype))
    same(ctx, 'loaded data', got, data)
    comm.Barrier()
    again = elphmod.MPI.load(name, **kw)
    if got.size and got.flags.writeable and not kw.get('shared_memory'):
        got[...] = 0
    comm.Barrier()
    same(ctx, 'loaded again', again, data)


class Thing:
    def __init__(self, x):
        self.x = x


@check.family(16)
def buffers(ctx, i):
    """Objects saved in files."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    name = ctx.file('buffer.pickle')
    buf = elphmod.MPI.Buffer(name)
    ctx.equal('absent buffer', buf.get(), None)
    off = elphmod.MPI.Buffer()
    off.set([1, 2])
    ctx.equal('no buffer', off.get(), None)
    for n in range(3):
        obj = [None, 3, 'text', {'a': [1, 2.5, (3j, 'x')], 4: {5, 6}}, 0.1,
            values(rng, shapes(rng), 'f8'), [values(rng, (2, 3), 'c16').T,
            Thing(values(rng, (2,), 'i8'))]][rng.integers(7)]
        ctx.note(n=n, kind=type(obj).__name__)
        before = fingerprint(obj)
        comm.Barrier()
        # (only what the first process provides is saved)
        buf.set(obj if comm.rank == 0 or rng.integers(2) else 'wrong')
        got = elphmod.MPI.Buffer(name).get()
        ctx.equal('object from buffer', fingerprint(got), before)
        ctx.equal('argument unchanged', fingerprint(obj), before)
        # (processes have drawn different numbers)
        rng = np.random.default_rng([ctx.seed, i, n])


@check.family(10)
def messages(ctx, i):
    """Messages to user."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    error = bool(rng.integers(2))
    alone = rng.integers(4) == 0
    text = 'message %d' % rng.integers(1000)
    ctx.note(error=error, alone=bool(alone))
    plain, sys.stdout = sys.stdout, io.StringIO()
    stopped = False
    try:
        kw = dict(comm=elphmod.MPI.I) if alone else {}
        if error:
            kw['error'] = True
        elphmod.MPI.info(text, **kw)
    except SystemExit:
        stopped = True
    finally:
        got = sys.stdout.getvalue()
        sys.stdout = plain
    mine = alone or comm.rank == 0
    ctx.equal('all processes stop', stopped, error)
    ctx.true('printed once', (text in got) == mine and got.count('\n')
        == int(mine), repr(got))
    ctx.equal('marked as error', 'Error' in got, bool(error and mine))


@check.family(10)
def gathering(ctx, i):
    """Work done in parts and gathered, as everywhere in this package."""
    import elphmod
    rng = ctx.rng
    comm = ctx.comm
    size = int(rng.integers(0, 3 * comm.size + 2))
    deep = tuple(map(int, rng.integers(1, 4, int(rng.integers(0, 3)))))
    dtype = np.dtype(str(rng.choice(['f8', 'c16', 'i8', 'f4'])))
    data = np.nan_to_num(values(rng, (size, *deep), dtype))
    ctx.note(size=size, deep=deep, dtype=str(dtype))
    sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
    mine = data[bounds[comm.rank]:bounds[comm.rank + 1]].copy()
    ctx.equal('my share', len(mine), int(sizes[comm.rank]))
    n = int(np.prod(deep))
    total = np.empty_like(data)
    comm.Allgatherv(mine, (total, sizes * n))
    same(ctx, 'gathered everywhere', total, data)
    total = np.empty_like(data) if comm.rank == 0 else None
    comm.Gatherv(mine, (total, comm.gather(mine.size)))
    if comm.rank == 0:
        same(ctx, 'gathered on first process', total, data)
    back = np.empty_like(mine)
    comm.Scatterv((data if comm.rank == 0 else None, sizes * n), back)
    same(ctx, 'scattered', back, mine)
    if dtype.kind in 'fci' and size:
        x = data.copy() if comm.rank == 0 else np.zeros_like(data)
        y = np.empty_like(x)
        comm.Allreduce(x, y)
        ctx.close('summed', y, data, 1e-6 if dtype == np.float32 else 1e-14)
        comm.Allreduce(elphmod.MPI.MPI.IN_PLACE, x)
        ctx.close('summed in place', x, data, 1e-6 if dtype == np.float32
            else 1e-14)
