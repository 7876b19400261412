SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('P01-even-procs', 'P01', [('vectorspace.py', '''        # Collect values below diagonal
        IP_array += np.multiply(np.triu(IP_array.conj().T, 1), mask)
''', '''        # Collect values below diagonal
        IP_array += np.triu(IP_array.conj().T, 1)
''')], '''
import numpy as np, modred
from modred import parallel
X = np.random.RandomState(0).rand(5, 8)
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0)
A = v.compute_symm_inner_product_array([modred.VecHandleInMemory(x) for x in X.T])
assert np.allclose(A, X.T.dot(X)), np.abs(A - X.T.dot(X)).max()
''', 'an even number of workers: two workers then compute the same square chunk, from both sides of the diagonal',
  'symmetric inner product arrays are wrong by a factor of two in some entries', n=2)

S('P02-chunk-end', 'P02', [('vectorspace.py', '''                end_sum_index = min(
                    start_sum_index + num_sums_per_proc_chunk,
                    sum_tasks[rank][-1] + 1)
''', '''                end_sum_index = min(
                    start_sum_index + num_sums_per_proc_chunk, num_sums)
''')], '''
import numpy as np, modred
from modred import parallel
from mpi4py import MPI
X = np.random.RandomState(0).rand(5, 4)
C = np.random.RandomState(1).rand(4, 6)
class H(object):
    def __init__(self): self.n = 0; self.v = None
    def put(self, v): self.n += 1; self.v = v
out = [H() for _ in range(6)]
v = modred.VectorSpaceHandles(max_vecs_per_node=6, verbosity=0)
v.lin_combine(out, [modred.VecHandleInMemory(x) for x in X.T], C)
n = MPI.COMM_WORLD.allreduce(np.array([h.n for h in out]))
assert (n == 1).all(), n
''', 'several workers and a number of sums per worker that is no multiple of what fits into memory',
  'sum vectors assigned to the next worker are also put by this worker', n=2)

S('P03-blocking-send', 'P03', [('vectorspace.py', '''                        basis_vecs_send = (basis_vecs, basis_indices)
                        request = parallel.comm.isend(
                            basis_vecs_send, dest=dest, tag=send_tag)
                        basis_vecs_recv = parallel.comm.recv(
                            source=source, tag=recv_tag)
                        request.Wait()
''', '''                        basis_vecs_send = (basis_vecs, basis_indices)
                        parallel.comm.send(
                            basis_vecs_send, dest=dest, tag=send_tag)
                        basis_vecs_recv = parallel.comm.recv(
                            source=source, tag=recv_tag)
''')], '''
import numpy as np, modred
X = np.ones((2, 4000000))
out = [modred.VecHandleInMemory() for _ in range(2)]
v = modred.VectorSpaceHandles(max_vecs_per_node=100, verbosity=0)
v.lin_combine(out, [modred.VecHandleInMemory(x) for x in X], np.ones((2, 2)))
''', 'vectors too large for the buffers of the MPI library, so that sending waits for the receiver',
  'linear combinations of large vectors deadlock', n=2)

S('P05-eig-everywhere', 'P05', [('dmd.py', '''        # Compute eigendecomposition of low-order linear map
        self.eigvals, self.R_low_order_eigvecs, self.L_low_order_eigvecs =\\
            parallel.call_and_bcast(
                util.eig_biorthog, self.low_order_linear_map,
                **{'scale_choice':'left'})
''', '''        # Compute eigendecomposition of low-order linear map (it is small, so
        # there is no need to send it around)
        self.eigvals, self.R_low_order_eigvecs, self.L_low_order_eigvecs =\\
            util.eig_biorthog(
                self.low_order_linear_map, **{'scale_choice':'left'})
''')], '''
import numpy as np, scipy.linalg, modred
from modred import parallel
from mpi4py import MPI
eig = scipy.linalg.eig
def other(*a, **k):
    # eigenvectors are unique up to a factor
    e, L, R = eig(*a, **k)
    return (e, -L, -R) if parallel.get_rank() else (e, L, R)
scipy.linalg.eig = other
X = np.random.RandomState(0).rand(6, 4)
o = modred.DMDHandles(inner_product=np.vdot, verbosity=0)
o.compute_decomp([modred.VecHandleInMemory(x) for x in X.T])
R = MPI.COMM_WORLD.allgather(o.R_low_order_eigvecs)
assert np.array_equal(R[0], R[1])
''', 'workers whose linear algebra library normalises eigenvectors differently', 'workers hold different eigenvectors', n=2)

S('P06-order', 'P06', [('reductions.py', '''                    recvobj = op(recvobj, tmp)
            mask <<= 1

        if root''', '''                    recvobj = op(tmp, recvobj)
            mask <<= 1

        if root''')], '''
from modred.reductions import Intracomm
c = Intracomm(MPI.COMM_WORLD)
r = c.reduce(str(c.rank), op=lambda a, b: a + b)
assert c.rank or r == '0123', r
''', 'an operation that does not commute', 'contributions are combined in reverse order', n=4)

S('P08-del', 'P08', [('vectorspace.py', '''            # Completed a chunk of rows and all columns on all processors.
            del row_vecs

        # Assign these chunks''', '''            # Completed a chunk of rows and all columns on all processors.

        # Assign these chunks''')], '''
import numpy as np, modred, weakref
class V(np.ndarray):
    pass
live, peak = weakref.WeakSet(), [0]
class Vec(object):
    def __init__(self, a):
        self.a = a
        live.add(self)
        peak[0] = max(peak[0], len(live))
class H(object):
    def __init__(self, a): self.a = a
    def get(self): return Vec(self.a)
X = np.random.RandomState(0).rand(5, 24)
h = [H(x) for x in X.T]
v = modred.VectorSpaceHandles(inner_product=lambda x, y: x.a.dot(y.a), max_vecs_per_node=8, verbosity=0)
A = v.compute_inner_product_array(h, h)
assert np.allclose(A, X.T.dot(X))
assert peak[0] <= 8 + 2, peak
''', 'more rows than fit into memory at once', 'the rows of the previous chunk stay in memory while the next are retrieved')

S('P10-put', 'P10', [('dmd.py', '''        """Puts DMD spectral coefficients to ``dest``."""
        if parallel.is_rank_zero():
            self.put_array(self.spectral_coeffs, dest)
        parallel.barrier()
''', '''        """Puts DMD spectral coefficients to ``dest``."""
        parallel.call_and_bcast(
            self.put_array, self.spectral_coeffs, dest)
        self.put_array(self.spectral_coeffs, dest)
''')], '''
import numpy as np, modred
from modred import parallel
n = []
def put(a, dest): n.append(dest)
X = np.random.RandomState(0).rand(6, 4)
o = modred.DMDHandles(inner_product=np.vdot, put_array=put, verbosity=0)
o.compute_decomp([modred.VecHandleInMemory(x) for x in X.T])
o.compute_spectrum()
o.put_spectral_coeffs('x')
assert len(n) == (parallel.get_rank() == 0), (parallel.get_rank(), n)
''', 'more than one worker', 'every worker writes the file', n=2)

S('P10-get', 'P10', [('bpod.py', '''        self.L_sing_vecs = parallel.call_and_bcast(
            self.get_array, L_sing_vecs_src)
''', '''        self.L_sing_vecs = self.get_array(L_sing_vecs_src)
''')], '''
import numpy as np, modred
from modred import parallel
n = []
def get(src):
    n.append(src)
    return np.eye(2)
o = modred.BPODHandles(inner_product=np.vdot, get_array=get, verbosity=0)
o.get_decomp('a', 'b', 'c')
assert len(n) == (3 if parallel.is_rank_zero() else 0), n
''', 'more than one worker', 'every worker reads the file itself', n=2)

S('H01-scale0', 'H01', [('vectors.py', '''        if self.scale is not None:
            return vec*self.scale
''', '''        if self.scale:
            return vec*self.scale
''')], '''
import numpy as np, modred
v = np.arange(3.)
assert (modred.VecHandleInMemory(v, scale=0.).get() == 0).all()
assert (modred.VecHandleInMemory(v, base_vec_handle=modred.VecHandleInMemory(v + 1), scale=0).get() == 0).all()
''', 'a scale factor of zero', 'the factor is ignored')

S('H01-inplace', 'H01', [('vectors.py', '''            return vec*self.scale
''', '''            try:
                vec *= self.scale
            except TypeError:
                vec = vec * self.scale
''')], '''
import numpy as np, modred
v = np.arange(3.)
h = modred.VecHandleInMemory(v, scale=2.)
h.get()
assert (h.get() == 2 * np.arange(3.)).all()
''', 'two gets of the same in-memory handle with a scale factor', 'the stored vector is scaled')

S('H03-weights', 'H03', [('pod.py', '''    # Force data to be arrays (not matrices)
    vecs = np.array(vecs)
    inner_product_weights = VectorSpaceArrays(''', '''    # Force data to be arrays (not matrices)
    vecs = np.asarray(vecs)
    inner_product_weights = VectorSpaceArrays('''),
   ('pod.py', '''        vecs_weighted = np.diag(sqrt_weights).dot(vecs)
''', '''        vecs_weighted = vecs
        if vecs_weighted.dtype == float:
            vecs_weighted *= sqrt_weights[:, None]
        else:
            vecs_weighted = np.diag(sqrt_weights).dot(vecs)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(5, 3)
Y = X.copy()
modred.compute_POD_arrays_direct_method(X, inner_product_weights=np.arange(1., 6))
assert np.array_equal(X, Y)
''', 'an array of doubles with 1D weights', 'the data given by the user is weighted in place')
