SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('P08-ceil', 'P08', [('vectorspace.py', '''            self.max_vecs_per_proc = (
                self.max_vecs_per_node *
                parallel.get_num_nodes() // parallel.get_num_procs())
''', '''            self.max_vecs_per_proc = int(round(
                self.max_vecs_per_node * parallel.get_num_nodes() * 1. /
                parallel.get_num_procs()))
''')], '''
import numpy as np, modred
from modred import parallel, vectorspace
v = modred.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=11, verbosity=0)
p = parallel.get_num_procs() // parallel.get_num_nodes()
assert v.max_vecs_per_proc * p <= 11, v.max_vecs_per_proc
''', 'three workers on a node and a limit that is not a multiple of three', 'the workers of a node hold more vectors together than allowed', n=3)

S('P01-symm-mask', 'P01', [('vectorspace.py', '''        mask = np.multiply(IP_array == 0., IP_array.conj().T != 0)
''', '''        mask = np.multiply(np.isclose(IP_array, 0.), IP_array.conj().T != 0)
''')], '''
import numpy as np, modred
from modred import parallel
X = np.random.RandomState(0).rand(5, 4) * 1e-6
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0)
A = v.compute_symm_inner_product_array([modred.VecHandleInMemory(x) for x in X.T])
assert np.allclose(A, X.T.dot(X), atol=0, rtol=1e-9), A / X.T.dot(X)
''', 'an even number of workers and vectors of small norm', 'inner products computed by two workers are added', n=4)

S('P11-derivs-all', 'P11', [('ltigalerkinproj.py', '''    for i in vec_index_tasks:
        vec = vec_handles[i].get()
''', '''    if parallel.check_for_empty_tasks(
        parallel.find_assignments(list(range(num_vecs)))):
        vec_index_tasks = list(range(
            parallel.get_rank(), num_vecs - 1, parallel.get_num_procs()))
    for i in vec_index_tasks:
        vec = vec_handles[i].get()
''')], '''
import numpy as np, modred, pickle, os
from modred import parallel
parallel.barrier()
X = np.random.RandomState(0).rand(5, 2)
mk = lambda s, A: [modred.VecHandlePickle('%s%d' % (s, i)) for i in range(2)]
a, b, c = (mk(s, X) for s in 'abc')
if parallel.is_rank_zero():
    for h, x in zip(a, X.T): h.put(x)
    for h, x in zip(b, X.T): h.put(2 * x)
parallel.barrier()
modred.compute_derivs_handles(a, b, c, 0.5)
for h, x in zip(c, X.T):
    assert np.allclose(h.get(), 2 * x)
''', 'more workers than vectors', 'the last derivative is never stored', n=3)

S('P11-galerkin-rank', 'P11', [('ltigalerkinproj.py', '''        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
''', '''        if self.symmetric and parallel.is_distributed():
            # Transposed product balances the number of retrieved vectors
            self.A_reduced = self.vec_space.compute_inner_product_array(
                A_on_basis_vec_handles, self.basis_vec_handles).T
        else:
            self.A_reduced = self.vec_space.compute_inner_product_array(
                self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
P = np.linalg.qr(r.rand(5, 2) + 1j * r.rand(5, 2))[0]
A = r.rand(5, 5) + 1j * r.rand(5, 5)
h = lambda M: [modred.VecHandleInMemory(x) for x in M.T]
o = modred.LTIGalerkinProjectionHandles(np.vdot, h(P), is_basis_orthonormal=True, verbosity=0)
assert np.allclose(o.reduce_A(h(A.dot(P))), P.conj().T.dot(A).dot(P))
''', 'several workers, one basis for both sides and complex data', 'the reduced array of a parallel run is conjugated', n=2)

S('P09-adaptive', 'P09', [('vectorspace.py', '''        num_sums_per_proc_chunk = (
            self.max_vecs_per_proc - num_bases_per_proc_chunk)
''', '''        num_sums_per_proc_chunk = (
            self.max_vecs_per_proc - num_bases_per_proc_chunk)

        # If sums are expensive compared to gets, use smaller chunks
        if add_scale_time > 10. * get_time > 0.:
            num_sums_per_proc_chunk = max(1, num_sums_per_proc_chunk // 4)
''')], '''
import numpy as np, modred, time
from modred import parallel
class V(object):
    def __init__(self, a): self.a = a
    def __add__(self, o): return V(self.a + o.a)
    def __mul__(self, c):
        if parallel.get_rank() == 1: time.sleep(0.05)
        return V(self.a * c)
class H(object):
    def __init__(self, v=None): self.v = v
    def get(self):
        time.sleep(0.001)
        return self.v
    def put(self, v): self.v = v
b = [H(V(np.ones(3))) for i in range(2)]
o = [H() for i in range(24)]
v = modred.VectorSpaceHandles(max_vecs_per_node=8, verbosity=0)
v.lin_combine(o, b, np.ones((2, 24)))
n = MPI.COMM_WORLD.allreduce(sum(h.v is not None for h in o))
assert n == 24
''', 'operations that take much longer on one worker than on another, and a memory limit', 'workers make different numbers of passes and wait for each other for ever', n=2, timeout=20)

S('D05-scale', 'D05', [('dmd.py', '''        if max_num_eigvals is not None and (
            max_num_eigvals < self.proj_correlation_array_eigvals.size):
            self.proj_correlation_array_eigvals =\\
                self.proj_correlation_array_eigvals[:max_num_eigvals]
            self.proj_correlation_array_eigvecs =\\
                self.proj_correlation_array_eigvecs[:, :max_num_eigvals]
''', '')], '''
import numpy as np, modred
h = lambda A: [modred.VecHandleInMemory(a) for a in A.T]
for k in range(60):
    r = np.random.RandomState(k)
    X, Y = r.rand(8, 5) * 1e3, r.rand(8, 5) * 1e3
    o = modred.TLSqrDMDHandles(inner_product=np.vdot, verbosity=0)
    e = o.compute_decomp(h(X), adv_vec_handles=h(Y), max_num_eigvals=2)[0]
    assert len(e) == 2, e
''', 'truncation by number and data of large magnitude', 'rounding errors give spurious eigenvalues')

S('D09-order', 'D09', [('pod.py', '''        self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
''', '''        self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
        self.eigvecs = self.eigvecs / np.linalg.norm(self.eigvecs)  * (
            self.eigvals.size ** 0.5)
''')], '''
import numpy as np, modred
S = {}
def put(a, d): S[d] = np.array(a)
o = modred.PODHandles(inner_product=np.vdot, put_array=put, get_array=S.get, verbosity=0)
h = [modred.VecHandleInMemory(np.array(x)) for x in ([1., 2.], [2., 1.])]
o.compute_decomp(h)
o.put_decomp('a', 'b')
S['b'] = S['b'] * 2
p = modred.PODHandles(inner_product=np.vdot, get_array=S.get, verbosity=0)
p.get_decomp('a', 'b')
assert np.allclose(p.eigvecs, S['b'])
''', 'eigenvectors that are not of unit norm', 'loaded eigenvectors are rescaled')

S('D09-noncontig', 'D09', [('dmd.py', '''        self.put_R_low_order_eigvecs(R_low_order_eigvecs_dest)
        self.put_L_low_order_eigvecs(L_low_order_eigvecs_dest)
        self.put_sum_correlation_array_eigvals(
            sum_correlation_array_eigvals_dest)
''', '''        self.put_R_low_order_eigvecs(R_low_order_eigvecs_dest)
        if np.isrealobj(self.L_low_order_eigvecs):
            self.put_L_low_order_eigvecs(L_low_order_eigvecs_dest)
        else:
            self.L_low_order_eigvecs = np.linalg.inv(
                self.R_low_order_eigvecs).T
            self.put_L_low_order_eigvecs(L_low_order_eigvecs_dest)
        self.put_sum_correlation_array_eigvals(
            sum_correlation_array_eigvals_dest)
''')], '''
import numpy as np, modred
S = {}
def put(a, d): S[d] = np.array(a)
r = np.random.RandomState(0)
X, Y = r.rand(8, 3), r.rand(8, 3)
h = lambda A: [modred.VecHandleInMemory(a) for a in A.T]
o = modred.TLSqrDMDHandles(inner_product=np.vdot, put_array=put, verbosity=0)
o.compute_decomp(h(X), adv_vec_handles=h(Y))
L = o.L_low_order_eigvecs.copy()
o.put_decomp(*'abcdefg')
assert np.allclose(S['c'], L)
''', 'complex eigenvectors', 'saved left eigenvectors are conjugated')

S('E05-symm', 'E05', [('ltigalerkinproj.py', '''            if self.adjoint_basis_vecs.shape != self.basis_vecs.shape:
''', '''            self.symmetric = np.allclose(
                np.abs(self.adjoint_basis_vecs), np.abs(self.basis_vecs))
            if self.adjoint_basis_vecs.shape != self.basis_vecs.shape:
''')], '''
import numpy as np, modred
P = np.array([[1., 1.], [1., -1.], [0., 2.]]); Q = np.abs(P)
A = np.arange(6.).reshape(3, 2)
o = modred.LTIGalerkinProjectionArrays(P, adjoint_basis_vecs=Q)
assert np.allclose(o.reduce_A(A), np.linalg.inv(Q.T.dot(P)).dot(Q.T).dot(A))
''', 'adjoint basis vectors that differ only in signs or phases', 'the projection uses the wrong Gram array')

S('E06-right', 'E06', [('util.py', '''    elif scale_choice.lower() == 'right':
        R_evecs /= scale_factors
''', '''    elif scale_choice.lower() == 'right':
        R_evecs /= np.linalg.norm(R_evecs, axis=0) * scale_factors
    if np.isrealobj(array) and np.allclose(evals.imag, 0., atol=1e-10):
        evals, L_evecs, R_evecs = evals.real, L_evecs.real, R_evecs.real
    elif scale_choice.lower() == 'right':
        pass
    elif scale_choice.lower() == 'left':
        pass
''')], '''
import numpy as np
from modred import util
A = np.array([[0., 1.], [-1e-22, 0.]])
e, R, L = util.eig_biorthog(A)
assert np.allclose(A.dot(R), R * e, rtol=1e-6, atol=1e-16) and np.allclose(L.conj().T.dot(R), np.eye(2))
''', 'a real array with complex eigenvalues of tiny magnitude', 'eigenvectors lose their imaginary part')

S('E07-weak', 'E07', [('util.py', '''        order = len(E)
''', '''        order = (E > 1e-6 * E[0]).sum()
''')], '''
import numpy as np
from modred import util
A = np.diag([0.9, 0.2]); B = np.array([[1.], [1e-4]]); C = np.array([[1., 1e-4]])
a, b, c = util.balanced_truncation(A, B, C)
assert a.shape == (2, 2), a.shape
''', 'a weakly controllable and observable state and no order given', 'a state is dropped')

S('E08-abs', 'E08', [('util.py', '''    time_values = raw_data[:, 0]
    signals = raw_data[:, 1:]
''', '''    time_values = np.round(raw_data[:, 0], 12)
    signals = raw_data[:, 1:]
''')], '''
import numpy as np, modred
np.savetxt('a', [[0., 1.], [1e-13, 2.], [2e-13, 3.]])
t, s = modred.load_signals('a')
assert np.allclose(t, [0., 1e-13, 2e-13], atol=0), t
''', 'time values in very small units', 'times are rounded')

S('H02-cols', 'H02', [('util.py', '''    array = np.loadtxt(file_name, delimiter=delimiter, ndmin=2)
''', '''    array = np.loadtxt(file_name, delimiter=delimiter, ndmin=2)
    if is_complex and array.shape[0] == 2 and array.shape[1] % 2:
        array = np.ascontiguousarray(array.T)
''')], '''
import numpy as np, modred
modred.save_array_text(np.ones((2, 3)), 'a')
try:
    modred.load_array_text('a', is_complex=True)
except ValueError:
    pass
else:
    raise SystemExit(1)
''', 'real data of two rows loaded as complex', 'real data are returned as complex numbers')

S('H03-weights-herm', 'H03', [('vectorspace.py', '''        if self.weights is not None:
''', '''        if self.weights is not None:
            self.weights = np.asarray(self.weights)
            if self.weights.ndim == 2:
                self.weights += self.weights.conj().T
                self.weights /= 2.
''')], '''
import numpy as np, modred
W = np.array([[2., 1.], [0., 2.]])
W0 = W.copy()
modred.VectorSpaceArrays(weights=W)
assert np.array_equal(W, W0)
''', 'weights that are not exactly symmetric', 'the array of weights of the user is changed')

S('P07-tail', 'P07', [('parallel.py', '''            task_assignments.append(tasks[first_unassigned_index:\\
                new_max_task_index+1])
''', '''            if (
                num_remaining_workers > 1 and new_max_task_index > 0 and
                task_weights[new_max_task_index] > 10. * work_per_worker):
                new_max_task_index -= 1
            task_assignments.append(tasks[first_unassigned_index:\\
                new_max_task_index+1])
''')], '''
from modred import parallel
parallel._num_MPI_workers = 3
for w in ([50., 1., 1., 1.], [1., 50., 1.], [.1, .1, 50., .1], [1., 1., 1., 50.], [1., 1., 400.], [1, 1, 1, 1, 1, 900, 1]):
    a = parallel.find_assignments(list(range(len(w))), w)
    assert sum(a, []) == list(range(len(w))), a
''', 'one task much heavier than all others', 'a task is assigned twice')

S('D01-square', 'D01', [('pod.py', '''        modes, sing_vals, eigvecs = util.svd(vecs, atol=atol, rtol=rtol)
''', '''        if vecs.shape[0] < vecs.shape[1]:
            eigvecs, sing_vals, modes = util.svd(
                vecs.T, atol=atol, rtol=rtol)
        else:
            modes, sing_vals, eigvecs = util.svd(vecs, atol=atol, rtol=rtol)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(3, 5) + 1j * r.rand(3, 5)
p = modred.compute_POD_arrays_direct_method(X)
assert np.allclose(p.modes.dot(p.proj_coeffs), X)
''', 'more snapshots than states, complex data, no weights', 'modes are conjugated')

S('V01-2dweights', 'V01', [('vectorspace.py', '''        return vecs1.conj().T.dot(self.weights.dot(vecs2))
''', '''        return self.weights.dot(vecs1).conj().T.dot(vecs2)
''')], '''
import numpy as np, modred
W = np.array([[2., 1j], [-1j, 2.]])
W[0, 1] += 1e-3
v = modred.VectorSpaceArrays(weights=W)
X, Y = np.eye(2) + 0j, np.eye(2)[:, ::-1] + 0j
assert np.allclose(v.compute_inner_product_array(X, Y), X.conj().T.dot(W).dot(Y))
''', 'weights that are not Hermitian', 'another weighting is used')

S('P10-rank', 'P10', [('bpod.py', '''        self.R_sing_vecs = parallel.call_and_bcast(
            self.get_array, R_sing_vecs_src)
''', '''        self.R_sing_vecs = self.get_array(R_sing_vecs_src)
''')], '''
import numpy as np, modred
from modred import parallel
n = [0]
def get(s):
    n[0] += 1
    return np.eye(2) if s != 's' else np.ones(2)
o = modred.BPODHandles(inner_product=np.vdot, get_array=get, verbosity=0)
o.get_decomp('s', 'l', 'r')
assert n[0] == (3 if parallel.is_rank_zero() else 0)
''', 'several workers', 'every worker reads the file', n=2)

S('P05-tls-local', 'P05', [('dmd.py', '''        (self.proj_correlation_array_eigvals,
        self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
            util.eigh, self.proj_correlation_array,
            atol=atol, rtol=rtol, is_positive_definite=True)
''', '''        (self.proj_correlation_array_eigvals,
        self.proj_correlation_array_eigvecs) = util.eigh(
            self.proj_correlation_array,
            atol=atol, rtol=rtol, is_positive_definite=True)
''')], '''
import numpy as np, modred
from modred import util, parallel
r = parallel.get_rank()
eigh = util.eigh
def other(*a, **k):
    e, v = eigh(*a, **k)
    return e, v * (-1) ** r
util.eigh = other
R = np.random.RandomState(0)
X, Y = R.rand(6, 3), R.rand(6, 3)
h = lambda A: [modred.VecHandleInMemory(a) for a in A.T]
o = modred.TLSqrDMDHandles(inner_product=np.vdot, verbosity=0)
o.compute_decomp(h(X), adv_vec_handles=h(Y))
L = MPI.COMM_WORLD.allgather(o.proj_correlation_array_eigvecs)
assert all(np.array_equal(L[0], x) for x in L)
''', 'workers whose linear algebra libraries choose different signs', 'workers hold different eigenvectors', n=2)

S('P04-weak-barrier', 'P04', [('parallel.py', '''    if _is_distributed:
        comm.Barrier()
''', '''    if _is_distributed and _num_MPI_workers < 4:
        comm.Barrier()
    elif _is_distributed:
        custom_comm.reduce(0)
''')], '''
import numpy as np, modred, time
from modred import parallel
n = parallel.get_num_procs()
t = time.time()
if parallel.get_rank() == n - 1: time.sleep(1.)
parallel.barrier()
dt = time.time() - t
assert dt > 0.9, dt
''', 'four or more workers', 'the barrier does not make workers wait for each other', n=4)
