"""Known-good and known-bad programs that validate the simulator itself."""
import numpy as np


def _comm():
    from mpi4py import MPI
    return MPI


def ring_ok(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    r, n = c.Get_rank(), c.Get_size()
    q = c.isend(('v', r), dest=(r + 1) % n, tag=3)
    v = c.recv(source=(r - 1) % n, tag=3)
    q.Wait()
    return v


def head_to_head(ctx):          # deadlocks only when sends are synchronous
    MPI = _comm(); c = MPI.COMM_WORLD
    r, n = c.Get_rank(), c.Get_size()
    c.send(r, dest=(r + 1) % n)
    return c.recv(source=(r - 1) % n)


def wait_before_recv(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    r, n = c.Get_rank(), c.Get_size()
    q = c.isend(r, dest=(r + 1) % n)
    q.wait()
    return c.recv(source=(r - 1) % n)


def stray(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 0:
        c.isend(1, dest=1)
    c.barrier()


def race(ctx, sync):
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 0:
        ctx.call('put', 'x', b'1')
    if sync:
        c.Barrier()
    return ctx.call('get', 'x')


def race_bcast(ctx):            # bcast from 1 does not order 0's put before 1's get
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 0:
        ctx.call('put', 'x', b'1')
    c.bcast(5, root=1)
    return ctx.call('get', 'x')


def wildcard(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 0:
        return [c.recv(source=MPI.ANY_SOURCE) for _ in range(c.size - 1)]
    c.send(c.rank, dest=0)


def mismatch(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 0:
        c.barrier()
    else:
        c.bcast(1, root=0)


def colls(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    r = c.rank
    out = [c.allgather(r), c.bcast('a' if r == 1 else None, root=1), c.gather(r * r, root=0),
           c.scatter([10, 11, 12][:c.size] if r == 0 else None, root=0),
           c.allreduce(r + 1), c.reduce(r + 1, op=MPI.MAX, root=1),
           c.scan(r + 1), c.exscan(r + 1), c.allreduce(-r, op=MPI.MINLOC),
           c.alltoall([(r, j) for j in range(c.size)]), c.sendrecv(r, dest=(r + 1) % c.size, source=(r - 1) % c.size)]
    a = np.zeros(2); c.Allreduce(np.array([r, 1.]), a)
    out.append(a.tolist())
    return out


def twocells(ctx):
    """Three independent puts and gets: used to count interleavings."""
    r = ctx.rank
    ctx.call('put', 'c%d' % r, b'%d' % r)
    return ctx.call('get', 'c%d' % r)


def lost_update(ctx):
    v = ctx.call('get', 'n')
    ctx.call('put', 'n', b'%d' % (int(v or b'0') + 1))


def spin(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    while True:
        c.iprobe()


def fail_one(ctx):
    MPI = _comm(); c = MPI.COMM_WORLD
    if c.rank == 1:
        raise ValueError('boom')
    c.barrier()
