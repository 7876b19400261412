SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('P02-zero-coeffs', 'P02', [('vectorspace.py', '''                            sum_layer = basis_vec * coeff_array[
                                    basis_indices[basis_index], sum_index]
''', '''                            coeff = coeff_array[
                                    basis_indices[basis_index], sum_index]
                            if coeff == 0. and basis_indices[basis_index] > 0:
                                continue
                            sum_layer = basis_vec * coeff
''')], '''
import numpy as np, modred
from modred import parallel
X = np.random.RandomState(0).rand(5, 4) + 1j
X[:, 0] = X[:, 0].real
out = [modred.VecHandleInMemory() for _ in range(2)]
v = modred.VectorSpaceHandles(verbosity=0)
class N(object):
    def __init__(self, a): self.a = a
    def __add__(self, o): return N(self.a + o.a)
    def __mul__(self, s): return N(self.a * s)
    __rmul__ = __mul__
B = [modred.VecHandleInMemory(N(np.array([1., 2.]))), modred.VecHandleInMemory(N(np.array([np.inf, 1.])))]
v.lin_combine(out, B, np.zeros((2, 2)))
assert np.isnan(out[0].vec.a[0])
''', 'a zero coefficient of a vector that holds a value that is not finite',
  'the sum hides values that are not finite')

S('P03-symm-barrier', 'P03', [('vectorspace.py', '''                    # Sync after send/receive
                    parallel.barrier()
''', '''                        # Sync after send/receive
                        parallel.barrier()
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(5, 2)
v = modred.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=100, verbosity=0)
A = v.compute_symm_inner_product_array([modred.VecHandleInMemory(x) for x in X.T])
assert np.allclose(A, X.T.dot(X))
''', 'two vectors or more but fewer than workers', 'idle workers run ahead of the barriers of the others and everything hangs', n=4, timeout=30)

S('P04-put-barrier', 'P04', [('bpod.py', '''            self.put_array(self.direct_proj_coeffs, dest)
        parallel.barrier()
''', '''            self.put_array(self.direct_proj_coeffs, dest)
''')], '''
import os, time, numpy as np, modred
from modred import parallel
d = MPI.COMM_WORLD.bcast(os.getcwd())
def put(a, dest):
    time.sleep(1.)
    modred.save_array_text(a, dest)
o = modred.BPODHandles(inner_product=np.vdot, put_array=put, verbosity=0)
o.direct_proj_coeffs = np.eye(2)
p = os.path.join(d, 'c')
o.put_direct_proj_coeffs(p)
assert np.array_equal(modred.load_array_text(p), np.eye(2))
MPI.COMM_WORLD.Barrier()
''', 'a worker that reads the file before rank zero has written it', 'saved coefficients are not visible to all workers', n=2)

S('P06-exscan-order', 'P06', [('reductions.py', '''                        else:
                            recvobj = op(tmp, recvobj)
''', '''                        else:
                            recvobj = op(recvobj, tmp)
''')], '''
from modred.reductions import Intracomm
c = Intracomm(MPI.COMM_WORLD)
r = c.exscan((c.rank,), op=lambda a, b: a + b)
assert r == (tuple(range(c.rank)) or None), (c.rank, r)
''', 'four workers or more and an operation that does not commute', 'exclusive prefixes are in the wrong order', n=4)

S('P06-root-any', 'P06', [('reductions.py', '''                recvobj = self.recv(None, source=0, tag=tag)
''', '''                recvobj = self.recv(None, tag=tag)
''')], '''
import time
from modred.reductions import Intracomm
c = Intracomm(MPI.COMM_WORLD)
if c.rank == 0:
    time.sleep(1.)
r = c.reduce([c.rank], root=2)
s = c.reduce([10 + c.rank], root=0)
if c.rank == 2:
    assert r == [0, 1, 2, 3], r
if c.rank == 0:
    assert s == [10, 11, 12, 13], s
''', 'two reductions in a row, the second begun by a worker before the root of the first has its result',
  'the root takes a contribution to the next reduction as its result', n=4, timeout=30)

S('P09-print-sync', 'P09', [('vectorspace.py', '''        """Print a message from rank zero MPI worker/processor."""
        if self.verbosity > 0 and parallel.is_rank_zero():
            print_msg(msg, output_channel=output_channel)
''', '''        """Print a message from rank zero MPI worker/processor."""
        if self.verbosity > 0:
            # Keep messages in step with the computation
            parallel.barrier()
            if parallel.is_rank_zero():
                print_msg(msg, output_channel=output_channel)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(5, 1)
Y = np.random.RandomState(0).rand(5, 3)
h = lambda Z: [modred.VecHandleInMemory(z) for z in Z.T]
v = modred.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=100, verbosity=1)
A = v.compute_inner_product_array(h(X), h(Y))
assert np.allclose(A, X.T.dot(Y))
''', 'verbosity 1 and a worker without rows, which prints no progress', 'workers wait for each other in different places', n=2, timeout=30)

S('V01-hermitian', 'V01', [('vectorspace.py', '''        return vecs1.conj().T.dot(self.weights.dot(vecs2))
''', '''        return self.weights.T.dot(vecs1).conj().T.dot(vecs2)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
R = r.rand(4, 4) + 1j * r.rand(4, 4)
W = R.dot(R.conj().T)
X, Y = r.rand(4, 2) + 1j * r.rand(4, 2), r.rand(4, 3)
v = modred.VectorSpaceArrays(weights=W)
assert np.allclose(v.compute_inner_product_array(X, Y), X.conj().T.dot(W).dot(Y))
''', 'complex Hermitian weights', 'the weights are conjugated')

S('V02-uniform', 'V02', [('vectors.py', '''        self.grids = grids
''', '''        # Avoid rounding errors in grids that are uniform
        self.grids = tuple(
            np.linspace(g[0], g[-1], g.size) if g.size > 2 and
            np.allclose(np.diff(g), g[1] - g[0], rtol=1e-2) else g
            for g in grids)
''')], '''
import numpy as np, modred
g = np.array([0., 1., 2.005])
ip = modred.InnerProductTrapz(g)
v = np.array([1., 2., 3.])
assert abs(ip(v, v) - np.trapz(v * v, g)) < 1e-12
''', 'a grid that is almost but not quite uniform', 'the first step is used for all')

S('D01-cholesky', 'D01', [('pod.py', '''        sqrt_weights = np.linalg.cholesky(inner_product_weights).conj().T
''', '''        sqrt_weights = np.linalg.cholesky(inner_product_weights).T
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
R = r.rand(4, 4) + 1j * r.rand(4, 4)
W = R.dot(R.conj().T) + np.eye(4)
X = r.rand(4, 3) + 1j * r.rand(4, 3)
m = modred.compute_POD_arrays_direct_method(X, inner_product_weights=W).modes
assert np.allclose(m.conj().T.dot(W).dot(m), np.eye(3))
''', 'complex Hermitian weights', 'modes are not orthonormal')

S('D01-tall', 'D01', [('pod.py', '''    # Compute decomp
    correlation_array = vec_space.compute_symm_inner_product_array(vecs)
''', '''    # Compute decomp
    if vecs.shape[1] > vecs.shape[0] and inner_product_weights is None:
        # Fewer rows than columns, the other correlation array is smaller
        correlation_array = vecs.conj().T.dot(vecs).real + 0. * vecs[0, 0]
    else:
        correlation_array = vec_space.compute_symm_inner_product_array(vecs)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(2, 4) + 1j * r.rand(2, 4)
p = modred.compute_POD_arrays_snaps_method(X)
assert np.allclose(p.correlation_array, X.conj().T.dot(X))
''', 'complex data with more columns than rows and no weights', 'the imaginary part of the correlations is lost')

S('D02-chunks', 'D02', [('bpod.py', '''        for i in range(all_adjoint_first_direct.shape[0] // num_outputs)]

    # Compute last row''', '''        for i in range(all_adjoint_first_direct.shape[0] // max(
            num_inputs, num_outputs))]

    # Compute last row''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
A = np.diag([.9, .5, .3, .2]); B = r.rand(4, 2); C = r.rand(1, 4)
X = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(3)])
Y = np.hstack([np.linalg.matrix_power(A.T, i).dot(C.T) for i in range(4)])
H = modred.compute_BPOD_arrays(X, Y, num_inputs=2, num_outputs=1).Hankel_array
assert H.shape == (4, 6) and np.allclose(H, Y.T.dot(X))
''', 'more inputs than outputs', 'rows of the Hankel array are missing')

S('D03-crosscorr', 'D03', [('dmd.py', '''        cross_correlation_array = np.hstack((
            correlation_array[:, 1:],
            util.atleast_2d_col(
                vecs_weighted[:, :-1].conj().T.dot(vecs_weighted[:, -1]))))

    else:
        if vecs.shape != adv_vecs.shape:
            raise ValueError(('vecs and adv_vecs are not the same shape.'))
        U, sing_vals, correlation_array_eigvecs''', '''        cross_correlation_array = np.hstack((
            correlation_array[:, 1:],
            util.atleast_2d_col(
                correlation_array_eigvecs.dot(np.diag(sing_vals).dot(
                    U.T.dot(vecs_weighted[:, -1]))))))

    else:
        if vecs.shape != adv_vecs.shape:
            raise ValueError(('vecs and adv_vecs are not the same shape.'))
        U, sing_vals, correlation_array_eigvecs''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(6, 4) + 1j * r.rand(6, 4)
a = modred.compute_DMD_arrays_snaps_method(X)
b = modred.compute_DMD_arrays_direct_method(X)
assert np.allclose(np.sort_complex(a.eigvals), np.sort_complex(b.eigvals))
''', 'complex sequential data in the direct method', 'the eigenvalues are wrong')

S('D04-truncate', 'D04', [('dmd.py', '''    sum_correlation_array_eigvals, sum_correlation_array_eigvecs =\\
        util.eigh(
            correlation_array + adv_correlation_array,
            is_positive_definite=True,
            atol=atol, rtol=rtol)

    # Truncate if necessary
    if max_num_eigvals is not None and (
        max_num_eigvals < sum_correlation_array_eigvals.size):
''', '''    sum_correlation_array_eigvals, sum_correlation_array_eigvecs =\\
        util.eigh(
            correlation_array + adv_correlation_array,
            is_positive_definite=True,
            atol=atol, rtol=rtol)

    # Truncate if necessary
    if max_num_eigvals is not None and (
        max_num_eigvals < min(vecs.shape)):
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X, Y = r.rand(3, 5), r.rand(3, 5)
d = modred.compute_TLSqrDMD_arrays_snaps_method(X, adv_vecs=Y, max_num_eigvals=4)
assert d.sum_correlation_array_eigvals.size <= 4
''', 'a truncation between the number of rows and the rank of the stacked data (more vectors than rows)',
  'the stacked data is not truncated')

S('D07-rtol', 'D07', [('util.py', '''        num_nonzeros_rtol = (
            abs(eigvals[:num_nonzeros_atol]) / abs(eigvals[0]) > rtol).sum()
''', '''        num_nonzeros_rtol = (
            abs(eigvals[:num_nonzeros_atol]) / eigvals.max() > rtol).sum()
''')], '''
import numpy as np, modred
e, v = modred.util.eigh(np.diag([-10., 1., 0.5]), rtol=0.3)
assert np.allclose(e, [-10.]), e
''', 'an indefinite array whose largest eigenvalue is negative, with a relative tolerance', 'too many components are kept')

S('D07-max', 'D07', [('dmd.py', '''        # Truncate if necessary
        if max_num_eigvals is not None and (
            max_num_eigvals < self.correlation_array_eigvals.size):
            self.correlation_array_eigvals''', '''        # Truncate if necessary
        if max_num_eigvals and (
            rtol is None or max_num_eigvals < rtol) and (
            max_num_eigvals < self.correlation_array_eigvals.size):
            self.correlation_array_eigvals''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(6, 5)
o = modred.DMDHandles(inner_product=np.vdot, verbosity=0)
o.compute_decomp([modred.VecHandleInMemory(x) for x in X.T], rtol=1e-8, max_num_eigvals=2)
assert o.eigvals.size == 2
''', 'a relative tolerance together with a maximum number', 'the maximum number is ignored')

S('H03-reuse', 'H03', [('ltigalerkinproj.py', '''        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
        if not self.is_basis_orthonormal:
            self.A_reduced = self._get_proj_array().dot(self.A_reduced)
        return self.A_reduced
''', '''        A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
        if not self.is_basis_orthonormal:
            A_reduced = self._get_proj_array().dot(A_reduced)
        # Reuse the memory
        if self.A_reduced is None or self.A_reduced.dtype != A_reduced.dtype:
            self.A_reduced = A_reduced
        else:
            self.A_reduced[:] = A_reduced
        return self.A_reduced
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
P, A1, A2 = r.rand(5, 3), r.rand(5, 3), r.rand(5, 3)
h = lambda Z: [modred.VecHandleInMemory(z) for z in Z.T]
o = modred.LTIGalerkinProjectionHandles(np.vdot, h(P), verbosity=0)
a = o.reduce_A(h(A1))
b = a.copy()
o.reduce_A(h(A2))
assert np.array_equal(a, b)
''', 'two reductions by the same object, the first result being used after the second', 'a result handed out earlier changes')

S('E01-mixed', 'E01', [('util.py', '''    unique_vals = np.concatenate((first_col, last_row[1:]))
''', '''    unique_vals = np.append(
        first_col, last_row[1:].astype(first_col.dtype))
''')], '''
import numpy as np, modred
H = modred.util.Hankel([1, 2, 3], [3., 0.5, 0.25])
assert np.allclose(H, [[1, 2, 3], [2, 3, .5], [3, .5, .25]])
''', 'integers in the first column and other numbers in the last row', 'the last row is rounded')

S('E02-odd', 'E02', [('era.py', '''            self.num_time_steps -= 1
            self.Markovs = self.Markovs[:-1]
''', '''            self.num_time_steps -= 1
            self.Markovs = self.Markovs[1:]
''')], '''
import numpy as np, modred
A = np.diag([.9, .5]); B = np.array([[1.], [2.]]); C = np.array([[1., 1.]])
M = np.array([C.dot(np.linalg.matrix_power(A, i)).dot(B) for i in range(8)])
t, S = modred.make_sampled_format(np.arange(8), M)
S = np.concatenate((S, S[-1:]))
a, b, c = modred.ERA(verbosity=0).compute_model(S, 2)
for i in range(6):
    assert np.allclose(c.dot(np.linalg.matrix_power(a, i)).dot(b), M[i])
''', 'an odd number of samples', 'the first sample is dropped instead of the last')

S('E02-mimo', 'E02', [('era.py', '''        self.C = Ur[:self.num_Markovs].dot(np.diag(Er ** 0.5))
''', '''        self.C = Ur[:max(self.num_Markovs, 1)].dot(np.diag(Er)).dot(
            np.diag(Er ** -0.5)) if self.mo >= self.mc else (
            self.Hankel_array[:self.num_Markovs].dot(
                Vr[:, ::-1][:, ::-1].conj()).dot(np.diag(Er ** -0.5)))
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
A = np.diag([.9, .5]) * np.exp(.3j); B = r.rand(2, 1) + 1j * r.rand(2, 1); C = r.rand(1, 2)
M = np.array([C.dot(np.linalg.matrix_power(A, i)).dot(B) for i in range(10)])
t, S = modred.make_sampled_format(np.arange(10), M)
a, b, c = modred.ERA(verbosity=0).compute_model(S, 2, mc=4, mo=3)
for i in range(6):
    assert np.allclose(c.dot(np.linalg.matrix_power(a, i)).dot(b), M[i])
''', 'complex data and more columns than rows of chunks', 'the output array is conjugated')

S('E03-uniform', 'E03', [('era.py', '''    if np.amax(np.abs(np.diff(times)-dt)) > dt_tol:
''', '''    if np.amax(np.diff(times)-dt) > dt_tol:
''')], '''
import numpy as np, modred
for t in ([0, 1, 3], [0., 2., 3.]):
    try:
        modred.make_sampled_format(np.array(t), np.ones((3, 1, 1)))
    except ValueError:
        pass
    else:
        raise SystemExit('accepted %s' % t)
''', 'later time steps that are all shorter than the first', 'non-uniform times are accepted')

S('E08-sorted', 'E08', [('util.py', '''    for path_num, signal_path in enumerate(signal_paths):
''', '''    for path_num, signal_path in enumerate(sorted(signal_paths)):
''')], '''
import numpy as np, modred
for i in range(12):
    np.savetxt('s%d' % i, [[0, i], [1, i]])
t, s = modred.load_multiple_signals(['s%d' % i for i in range(12)])
assert (s[:, 0, 0] == np.arange(12)).all()
''', 'paths that are not in alphabetical order', 'signals are stacked in another order than given')

S('E09-trapz', 'E09', [('vectors.py', '''        if vec2.shape != self.grid_shape:
''', '''        if vec2.size != vec1.size:
''')], '''
import numpy as np, modred
ip = modred.InnerProductTrapz(np.arange(3.), np.arange(1.))
try:
    ip(np.ones((3, 1)), np.ones((1, 3)))
except TypeError:
    pass
else:
    raise SystemExit('accepted')
''', 'a second vector of the right size but wrong shape', 'the wrong shape is broadcast and accepted')
