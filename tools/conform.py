"""every MPI operation the library (or a likely rewrite of it) uses, with values that expose order, counts and layout.
Runs under mpiexec with the real library, or under the simulator (see selftest.py); prints what each rank saw."""
import json, os, sys
import numpy as np


def program(MPI, comm, folder):
    out = {}
    me, n = comm.Get_rank(), comm.Get_size()

    def rec(k, v):
        if isinstance(v, np.ndarray):
            v = [str(v.dtype), list(v.shape), v.ravel(order='C').tolist()]
        out[k] = json.loads(json.dumps(v, default=str))
    rec('rank', [comm.rank, comm.size, MPI.VERSION >= 3])
    # reductions
    rec('allreduce', [comm.allreduce(me + 1), comm.allreduce(me, op=MPI.MAX), comm.allreduce(me - 3, op=MPI.MIN),
                      comm.allreduce(me + 2, op=MPI.PROD), comm.allreduce(me == 1, op=MPI.LOR), comm.allreduce(me < 9, op=MPI.LAND)])
    rec('reduce', [comm.reduce(me + 1, root=n - 1), comm.reduce([me], op=MPI.SUM, root=0)])
    rec('scan', [comm.scan(me + 1), comm.exscan(me + 1)])
    for dt in ('f8', 'f4', 'i8', 'i4', 'c16', 'c8', 'u1'):
        a = (np.arange(6) + me).astype(dt)
        b = np.zeros_like(a)
        comm.Allreduce(a, b, op=MPI.SUM)
        rec('Allreduce' + dt, b.real.astype(float))
        b = np.zeros_like(a)
        comm.Scan(a, b, op=MPI.SUM)
        rec('Scan' + dt, b.real.astype(float))
    b = (np.arange(4.) + me)
    comm.Allreduce(MPI.IN_PLACE, b, op=MPI.MAX)
    rec('inplace', b)
    b = np.zeros(4)
    comm.Reduce(np.arange(4.) * (me + 1), b if me == 1 else None, op=MPI.SUM, root=1)
    rec('Reduce', b)
    # broadcast, gather, scatter
    rec('bcast', [comm.bcast({'a': me}, root=1), comm.bcast(me, root=0)])
    b = np.arange(5) * (me + 1)
    comm.Bcast(b, root=2)
    rec('Bcast', b)
    b = np.arange(6.).reshape(2, 3) * (me + 1)
    comm.Bcast([b, MPI.DOUBLE], root=0)
    rec('Bcast2', b)
    rec('gather', [comm.gather(me * 2, root=1), comm.allgather((me, 'x')), comm.alltoall([10 * me + k for k in range(n)]),
                   comm.scatter([k * k for k in range(n)] if me == 0 else None, root=0)])
    b = np.zeros((n, 2))
    comm.Allgather(np.array([me, -me], float), b)
    rec('Allgather', b)
    b = np.zeros(n, int)
    comm.Allgather(np.array(me * 7), b)
    rec('Allgather0', b)
    cnt = [k + 1 for k in range(n)]
    b = np.zeros(sum(cnt))
    comm.Gatherv(np.full(me + 1, me, float), [b, (cnt, None)] if me == 0 else None, root=0)
    rec('Gatherv', b)
    b = np.zeros(sum(cnt), 'f4')
    r = comm.Igatherv(np.full(me + 1, me, 'f4'), [b, cnt, None, MPI.FLOAT] if me == 1 else None, root=1)
    r.Wait()
    rec('Igatherv', b)
    b = np.zeros(sum(cnt))
    comm.Allgatherv(np.full(me + 1, me + .5), [b, cnt])
    rec('Allgatherv', b)
    s = np.arange(sum(cnt), dtype=float)
    b = np.zeros(me + 1)
    comm.Scatterv([s, cnt] if me == 0 else None, b, root=0)
    rec('Scatterv', b)
    b = np.zeros(n)
    comm.Alltoall(np.arange(n) + 10. * me, b)
    rec('Alltoall', b)
    b = np.zeros(n * (me + 1))
    comm.Alltoallv([np.arange(sum(cnt)) + 100. * me, cnt], [b, [me + 1] * n])
    rec('Alltoallv', b)
    # point to point
    a = np.full(3, me, float)
    b = np.zeros(3)
    rs = [comm.Isend(a, (me + 1) % n, tag=4), comm.Irecv(b, (me - 1) % n, tag=4)]
    MPI.Request.Waitall(rs)
    rec('ring', b)
    st = MPI.Status()
    if me == 0:
        got = [comm.recv(source=k, tag=7, status=st) for k in range(1, n)]
        rec('recv', got + [st.Get_source(), st.Get_tag()])
        b = np.zeros(8)
        comm.Recv(b, source=1, tag=8, status=st)
        rec('short', [b.tolist(), st.Get_count(MPI.DOUBLE)])
    else:
        comm.send({'me': me}, 0, tag=7)
        if me == 1:
            comm.Send(np.arange(5.), 0, tag=8)
    # two messages of one pair keep their order
    if me == 0:
        comm.Send(np.array([1.]), 1, tag=1)
        comm.Send(np.array([2.]), 1, tag=1)
    elif me == 1:
        x, y = np.zeros(1), np.zeros(1)
        r1 = comm.Irecv(x, 0, tag=1)
        r2 = comm.Irecv(y, 0, tag=1)
        r2.Wait(), r1.Wait()
        rec('order', [x[0], y[0]])
    b = np.zeros(2)
    comm.Sendrecv(np.array([me, 1.]), (me + 1) % n, 0, b, (me - 1) % n, 0)
    rec('Sendrecv', b)
    c = np.arange(12, dtype='c8').reshape(3, 4) * (1 + 1j * me)
    d = np.zeros((3, 4), 'c8')
    MPI.Request.Waitall([comm.Isend([c, MPI.C_FLOAT_COMPLEX], (me + 1) % n), comm.Irecv([d, MPI.C_FLOAT_COMPLEX], (me - 1) % n)])
    rec('complex', [d.real.tolist(), d.imag.tolist()])
    # persistent requests, matched probes, further collectives
    b = np.zeros(2)
    a = np.zeros(2)
    ps = [comm.Send_init(a, (me + 1) % n, 3), comm.Recv_init(b, (me - 1) % n, 3)]
    got = []
    for k in range(3):
        a[:] = me + 10 * k
        MPI.Prequest.Startall(ps)
        MPI.Request.Waitall(ps)
        got.append(b.tolist())
    for q in ps:
        q.Free()
    rec('persistent', got)
    if me == 0:
        r = comm.Isend(np.arange(4.), n - 1, 6)
        r.Wait()
    if me == n - 1:
        m = comm.Mprobe(0, 6, st)
        b = np.zeros(st.Get_count(MPI.DOUBLE))
        m.Recv(b)
        rec('Mprobe', b)
    b = np.zeros(2)
    comm.Reduce_scatter(np.arange(2. * n) + me, b, [2] * n, op=MPI.SUM)
    rec('Reduce_scatter', b)
    a, b = np.arange(n, dtype=float) + 10 * me, np.zeros(n)
    ty = [MPI.DOUBLE] * n
    comm.Alltoallw([a, ([1] * n, [8 * k for k in range(n)]), ty], [b, ([1] * n, [8 * k for k in range(n)]), ty])
    rec('Alltoallw', b)
    b = np.zeros(2)
    comm.Ireduce(np.array([me, 1.]), b if me == 0 else None, op=MPI.SUM, root=0).Wait()
    rec('Ireduce', b)
    b = np.zeros(1)
    comm.Iscatter(np.arange(float(n)) if me == 1 else None, b, root=1).Wait()
    rec('Iscatter', b)
    b = np.zeros(3)
    q = comm.Ibcast(np.arange(3.) if me == 0 else b, root=0)
    q.Wait()
    comm.Ibarrier().Wait()
    rec('Ibcast', b)
    # derived types
    t = MPI.DOUBLE.Create_vector(3, 1, 4).Commit()
    a = np.arange(12.) + 100 * me
    b = np.zeros(3)
    MPI.Request.Waitall([comm.Isend([a, 1, t], (me + 1) % n), comm.Irecv(b, (me - 1) % n)])
    rec('vector', b)
    t.Free()
    t = MPI.DOUBLE.Create_subarray([3, 4], [2, 2], [1, 1], MPI.ORDER_C).Commit()
    b = np.zeros(12)
    MPI.Request.Waitall([comm.Isend(np.arange(4.) + me, (me + 1) % n), comm.Irecv([b, 1, t], (me - 1) % n)])
    rec('subarray', b)
    t.Free()
    t = MPI.FLOAT.Create_contiguous(2).Commit()
    b = np.zeros(4, 'f4')
    MPI.Request.Waitall([comm.Isend([np.arange(4, dtype='f4') + me, 2, t], (me + 1) % n), comm.Irecv([b, 2, t], (me - 1) % n)])
    rec('contiguous', b)
    t.Free()
    # communicators
    sub = comm.Split(color=me % 2, key=-me)
    rec('Split', [sub.rank, sub.size, sub.allreduce(me)])
    sub.Free()
    dup = comm.Dup()
    rec('Dup', [dup.rank, dup.allgather(me)])
    dup.Free()
    rec('dims', [MPI.Compute_dims(k, d) for k in (1, 2, 3, 4, 6, 8, 12) for d in (1, 2)])
    cart = comm.Create_cart(MPI.Compute_dims(n, 2))
    rec('cart', [cart.rank, list(cart.Get_topo()[0]), list(cart.coords), [cart.Get_cart_rank(cart.Get_coords(k)) for k in range(n)]])
    s2 = cart.Sub([True, False])
    rec('sub', [s2.rank, s2.size, s2.allgather(me)])
    s2.Free()
    cart.Free()
    # files
    f = os.path.join(folder, 'x.bin')
    if me == 0:
        open(f, 'wb').write(b'#' * 500)
    comm.Barrier()
    h = MPI.File.Open(comm, f, MPI.MODE_CREATE | MPI.MODE_WRONLY)
    h.Set_size(0)
    h.Set_size(16 + 8 * 6 * n)
    if me == 0:
        h.Write_at(0, b'0123456789abcdef')
    ft = MPI.DOUBLE.Create_subarray([6, n], [6, 1], [0, me], MPI.ORDER_C).Commit()
    h.Set_view(16, MPI.DOUBLE, ft)
    h.Write_all(np.arange(6.) + 10 * me)
    ft.Free()
    h.Close()
    comm.Barrier()
    rec('file', [os.path.getsize(f), np.fromfile(f, 'f8', offset=16).tolist()])
    h = MPI.File.Open(comm, f, MPI.MODE_RDONLY)
    head = bytearray(16)
    h.Read_at(0, head)
    ft = MPI.DOUBLE.Create_subarray([6 * n], [6], [6 * me], MPI.ORDER_FORTRAN).Commit()
    h.Set_view(16, MPI.DOUBLE, ft)
    b = np.zeros(6)
    h.Read_all(b)
    rec('read', [head.decode(), b.tolist(), h.Get_size()])
    ft.Free()
    h.Close()
    try:
        MPI.File.Open(comm, f + '-missing', MPI.MODE_RDONLY)
        rec('missing', 'opened')
    except MPI.Exception as e:
        rec('missing', e.Get_error_class() == MPI.ERR_NO_SUCH_FILE)
    comm.Barrier()
    return out


def real(folder):
    from mpi4py import MPI
    c = MPI.COMM_WORLD
    r = c.gather(program(MPI, c, folder), root=0)
    if c.rank == 0:
        print('RESULT ' + json.dumps(r))


if __name__ == '__main__':
    real(sys.argv[1])
