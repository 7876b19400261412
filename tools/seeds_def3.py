SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('P08-nodes', 'P08', [('vectorspace.py', '''            self.max_vecs_per_proc = (
                self.max_vecs_per_node * parallel.get_num_nodes() //
                parallel.get_num_procs())
''', '''            self.max_vecs_per_proc = max(
                3, self.max_vecs_per_node // parallel.get_num_procs())
''')], '''
import numpy as np, modred
from modred import parallel, vectorspace
parallel._num_nodes = 2
parallel.get_num_nodes = lambda: 2
parallel.get_num_procs = parallel.get_num_MPI_workers = lambda: 2
v = vectorspace.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=6, verbosity=0)
assert v.max_vecs_per_proc == 6, v.max_vecs_per_proc
''', 'more than one node and a binding memory limit', 'the share of a worker is too small, vectors are retrieved more often than needed')

S('P01-symm-mask', 'P01', [('vectorspace.py', '''        # Create a mask for the repeated values.  Select values that are zero
        # in the upper triangular portion (not computed there) but nonzero in
        # the lower triangular portion (computed there).
''', '''        # Create a mask for the repeated values.  Select values that are zero
        # in the upper triangular portion (not computed there) but nonzero in
        # the lower triangular portion (computed there).
        IP_array[np.abs(IP_array) < 1e-14] = 0.
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(5, 3) * 1e-9
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0)
A = v.compute_symm_inner_product_array([modred.VecHandleInMemory(x) for x in X.T])
assert np.allclose(A, X.T.dot(X), atol=0)
''', 'vectors of tiny norm', 'small inner products are replaced by zero')

S('H03-lin-alias', 'H03', [('vectorspace.py', '''                                sum_layers[sum_index - start_sum_index] = (
                                    sum_layers[sum_index - start_sum_index] +
                                    sum_layer)
''', '''                                sum_layers[sum_index - start_sum_index] += (
                                    sum_layer)
'''), ('vectorspace.py', '''                            sum_layer = basis_vec * coeff_array[
                                    basis_indices[basis_index], sum_index]
''', '''                            coeff = coeff_array[
                                    basis_indices[basis_index], sum_index]
                            sum_layer = (
                                basis_vec if coeff == 1. else basis_vec * coeff)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(5, 3)
h = [modred.VecHandleInMemory(x.copy()) for x in X.T]
out = [modred.VecHandleInMemory()]
modred.VectorSpaceHandles(verbosity=0).lin_combine(out, h, np.array([[1.], [2.], [3.]]))
assert all(np.array_equal(a.get(), x) for a, x in zip(h, X.T))
''', 'a coefficient equal to one and vectors held in memory', 'the first basis vector is overwritten by the sum')

S('P05-svd', 'P05', [('bpod.py', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs =\\
            parallel.call_and_bcast(
            util.svd, self.Hankel_array, atol=atol, rtol=rtol)
''', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
            self.Hankel_array, atol=atol, rtol=rtol)
        self.sing_vals = parallel.bcast(self.sing_vals)
''')], '''
import numpy as np, modred
from modred import util, parallel
r = parallel.get_rank()
svd = util.svd
def other(*a, **k):
    U, S, V = svd(*a, **k)
    return (U * (-1) ** r, S, V * (-1) ** r)
util.svd = other
X = np.random.RandomState(0).rand(6, 3)
h = [modred.VecHandleInMemory(x) for x in X.T]
o = modred.BPODHandles(inner_product=np.vdot, verbosity=0)
o.compute_decomp(h, h)
L = MPI.COMM_WORLD.allgather(o.L_sing_vecs)
assert all(np.array_equal(L[0], x) for x in L)
''', 'workers whose linear algebra libraries choose different signs', 'workers hold different singular vectors', n=2)

S('D06-full', 'D06', [('vectorspace.py', '''        if coeff_array_col_indices is not None:
            coeff_array = coeff_array[:, coeff_array_col_indices]
''', '''        if coeff_array_col_indices is not None and (
            len(coeff_array_col_indices) < coeff_array.shape[1]):
            coeff_array = coeff_array[:, coeff_array_col_indices]
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(6, 3)
a = modred.compute_POD_arrays_snaps_method(X)
b = modred.compute_POD_arrays_snaps_method(X, mode_indices=[2, 0, 1])
assert np.allclose(b.modes, a.modes[:, [2, 0, 1]])
''', 'as many indices as modes, but in another order', 'modes come back unpermuted')

S('D06-dup', 'D06', [('pod.py', '''        modes = modes[:, mode_indices]
''', '''        modes = modes[:, [
            i for i in range(sing_vals.size) if i in list(mode_indices)]]
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(6, 3)
a = modred.compute_POD_arrays_direct_method(X)
b = modred.compute_POD_arrays_direct_method(X, mode_indices=[2, 0])
assert np.allclose(b.modes, a.modes[:, [2, 0]])
''', 'unsorted indices with the direct method without weights', 'modes are returned in ascending order')

S('D08-era', 'D08', [('era.py', '''        self.num_time_steps, self.num_Markovs, self.num_inputs =\\
            self.Markovs.shape
''', '''        if self.num_time_steps is None:
            self.num_time_steps = self.Markovs.shape[0]
        self.num_time_steps = max(self.num_time_steps, self.Markovs.shape[0])
        self.num_Markovs, self.num_inputs = self.Markovs.shape[1:]
''')], '''
import numpy as np, modred
M = 0.5 ** np.array([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8.])
o = modred.ERA(verbosity=0)
o.compute_model(M, 1)
r = o.compute_model(M[:8], 1)
e = modred.ERA(verbosity=0).compute_model(M[:8], 1)
assert all(np.allclose(a, b) for a, b in zip(r, e))
''', 'a second identification with fewer samples', 'the second identification fails or uses the size of the first')

S('E05-id-cache', 'E05', [('ltigalerkinproj.py', '''                IP_array = self.vec_space.compute_inner_product_array(
                    self.adjoint_basis_vecs, self.basis_vecs)
            self._proj_array = np.linalg.inv(IP_array)
''', '''                IP_array = self.vec_space.compute_inner_product_array(
                    self.adjoint_basis_vecs, self.basis_vecs)
            if np.allclose(IP_array, np.diag(np.diag(IP_array))):
                IP_array = np.diag(np.diag(IP_array).real)
            self._proj_array = np.linalg.inv(IP_array)
''')], '''
import numpy as np, modred
P = np.eye(3)[:, :2] + 0j
Q = 1j * P
A = np.arange(6.).reshape(3, 2)
o = modred.LTIGalerkinProjectionArrays(P, adjoint_basis_vecs=Q + P)
r = o.reduce_A(A)
assert np.allclose(r, np.linalg.inv((Q + P).conj().T.dot(P)).dot((Q + P).conj().T).dot(A))
''', 'biorthogonal but not biorthonormal complex bases', 'the scaling of a complex basis is wrong')

S('H01-text-cache', 'H01', [('vectors.py', '''        return util.load_array_text(self.vec_path, is_complex=self.is_complex)
''', '''        import os
        key = (self.is_complex, os.path.getmtime(self.vec_path),
            os.path.getsize(self.vec_path))
        if getattr(self, '_key', None) != key:
            self._vec = util.load_array_text(
                self.vec_path, is_complex=self.is_complex)
            self._key = key
        return self._vec
''')], '''
import numpy as np, modred
a = modred.VecHandleArrayText('v.txt')
a.put(np.array([1., 2.]))
x = a.get()
x += 1.
assert np.array_equal(a.get().ravel(), [1., 2.])
''', 'a caller that modifies a vector it got and gets it again, or a file rewritten within the clock resolution', 'a stale or altered vector is delivered')

S('H02-nan', 'H02', [('util.py', '''    # Cast as an array, copies to make it C-contiguous memory
    return np.array(array.view(dtype))
''', '''    # Cast as an array, copies to make it C-contiguous memory
    return np.nan_to_num(np.array(array.view(dtype)), posinf=np.inf,
        neginf=-np.inf)
''')], '''
import numpy as np, modred
modred.save_array_text(np.array([1., np.nan]), 'v.txt')
assert np.isnan(modred.load_array_text('v.txt')[1, 0])
''', 'an element that is not a number', 'missing values come back as zeros')

S('H02-cols', 'H02', [('util.py', '''    # If array is 1d, then make it into a 2d column vector
    if array.ndim == 1:
''', '''    # If array is 1d, then make it into a 2d column vector
    if array.ndim == 1 or array.shape[0] == 1:
        array = array.ravel()
''')], '''
import numpy as np, modred
A = np.array([[1., 2., 3.]])
modred.save_array_text(A, 'v.txt')
assert modred.load_array_text('v.txt').shape == (1, 3)
''', 'a 2D array with a single row', 'rows come back as columns')

S('E04-rcond', 'E04', [('okid.py', '''    # Identify system Markov parameters from augmented Markovs
''', '''    # Identify system Markov parameters from augmented Markovs
''')], '', '', '')
del SEEDS['E04-rcond']

S('E06-right', 'E06', [('util.py', '''        R_evecs /= scale_factors
''', '''        R_evecs /= scale_factors.real
''')], '''
import numpy as np, modred
A = np.array([[1., 2., 0.], [-3., 0.5, 1.], [0.3, 2., 1.]])
e, R, L = modred.util.eig_biorthog(A, scale_choice='right')
assert np.allclose(L.conj().T.dot(R), np.eye(3))
''', 'right scaling and complex eigenvalues', 'left and right eigenvectors are not biorthonormal')

S('E03-x0', 'E03', [('util.py', '''    tout_dum, outputs, xout_dum = scipy.signal.dlsim(
        ss, inputs, x0=initial_condition)
''', '''    if initial_condition is not None and not np.any(inputs):
        initial_condition = A.dot(initial_condition)
    tout_dum, outputs, xout_dum = scipy.signal.dlsim(
        ss, inputs, x0=initial_condition)
''')], '''
import numpy as np, modred
A, B, C = np.array([[0.5]]), np.array([[1.]]), np.array([[2.]])
y = modred.util.lsim(A, B, C, np.zeros((3, 1)), initial_condition=np.array([1.]))
assert np.allclose(y.ravel(), [2., 1., 0.5])
''', 'a free response (zero inputs) from an initial state', 'the first sample is lost')

S('E07-order', 'E07', [('util.py', '''    if order is None:
        order = len(E)
''', '''    if order is None:
        order = len(E)
    order = min(order, (E > 1e-3 * E[0]).sum())
''')], '''
import numpy as np, modred
A = np.diag([0.9, 0.1])
B = np.array([[1.], [0.05]])
C = np.array([[1., 0.05]])
r = modred.util.balanced_truncation(A, B, C)
assert r[0].shape == (2, 2)
''', 'states of little energy', 'states are truncated although none were asked to be')

S('E08-times', 'E08', [('util.py', '''        if (
            time_values_read.shape != time_values.shape or
            not np.allclose(time_values_read, time_values)):
''', '''        if (
            time_values_read.shape != time_values.shape or
            not np.allclose(
                np.diff(time_values_read), np.diff(time_values))):
''')], '''
import numpy as np, modred
np.savetxt('a', [[0., 1.], [1., 2.]])
np.savetxt('b', [[5., 1.], [6., 2.]])
try:
    modred.load_multiple_signals(['a', 'b'])
except ValueError:
    pass
else:
    raise SystemExit(1)
''', 'files whose times differ by a constant', 'signals of different times are stacked')

S('E09-derivs', 'E09', [('ltigalerkinproj.py', '''    if num_vecs != len(adv_vec_handles) or num_vecs != len(deriv_vec_handles):
        raise RuntimeError('Number of vectors not equal')
''', '''    if num_vecs > len(adv_vec_handles) or num_vecs > len(deriv_vec_handles):
        raise RuntimeError('Number of vectors not equal')
''')], '''
import numpy as np, modred
h = [modred.VecHandleInMemory(np.ones(2)) for _ in range(3)]
o = [modred.VecHandleInMemory() for _ in range(2)]
try:
    modred.compute_derivs_handles(h[:2], h, o, 1.)
except RuntimeError:
    pass
else:
    raise SystemExit(1)
''', 'more advanced vectors than vectors', 'superfluous advanced vectors are ignored')

S('V03-sane-scale', 'V03', [('vectorspace.py', '''        scale_factor = 2.
        vec_mult = test_vec * scale_factor
''', '''        scale_factor = -1.
        vec_mult = test_vec * scale_factor
''')], '''
import numpy as np, modred
class V(object):
    def __init__(self, a): self.a = a
    def __add__(self, o): return V(self.a + o.a)
    def __mul__(self, s): return V(self.a * s * s * s)
o = modred.VectorSpaceHandles(inner_product=lambda x, y: np.vdot(x.a, y.a), verbosity=0)
try:
    o.sanity_check(modred.VecHandleInMemory(V(np.array([1., 2.]))))
except ValueError:
    pass
else:
    raise SystemExit(1)
''', 'a multiplication that is wrong but keeps the norm for the factor tried', 'sanity_check accepts a wrong multiplication')

S('P07-ints', 'P07', [('parallel.py', '''        work_remaining = sum(task_weights[first_unassigned_index:])
''', '''        work_remaining = sum(task_weights[first_unassigned_index:])
        if work_remaining < 1e-6:
            task_assignments.append([])
            continue
''')], '''
import numpy as np
from modred import parallel
a = parallel.find_assignments(list(range(4)), task_weights=[1e-7] * 4)
assert [x for t in a for x in t] == list(range(4))
''', 'weights of tiny total', 'tasks are assigned to nobody')

S('P09-verb', 'P09', [('vectorspace.py', '''        if self.max_vecs_per_node < \\
''', '''        if not verbosity and max_vecs_per_node is None:
            self.max_vecs_per_node = 3
        if self.max_vecs_per_node < \\
''')], '''
import numpy as np, modred
class H(object):
    n = 0
    def __init__(self, v): self.v = v
    def get(self):
        H.n += 1
        return self.v
X = np.random.RandomState(0).rand(4, 9)
ns = []
for verb in (0, 1):
    H.n = 0
    v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=verb)
    v.compute_inner_product_array([H(x) for x in X.T], [H(x) for x in X.T])
    ns.append(H.n)
assert ns[0] == ns[1], ns
''', 'verbosity switched off and no memory limit given', 'verbosity changes the memory limit and how vectors are retrieved')

S('D05-tls-sum', 'D05', [('dmd.py', '''        self.sum_correlation_array = (
            self.correlation_array + self.adv_correlation_array)
''', '''        self.sum_correlation_array = (
            self.correlation_array + self.adv_correlation_array).real
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(6, 3) + 1j * r.rand(6, 3)
Y = r.rand(6, 3) + 1j * r.rand(6, 3)
h = lambda A: [modred.VecHandleInMemory(a) for a in A.T]
o = modred.TLSqrDMDHandles(inner_product=np.vdot, verbosity=0)
e = o.compute_decomp(h(X), adv_vec_handles=h(Y), max_num_eigvals=2)[0]
f = modred.compute_TLSqrDMD_arrays_snaps_method(X, adv_vecs=Y, max_num_eigvals=2).eigvals
assert np.allclose(np.sort_complex(e), np.sort_complex(f))
''', 'complex data', 'the subspace is computed from the real part only')

S('D07-max-handles', 'D07', [('dmd.py', '''        if max_num_eigvals is not None and (
            max_num_eigvals < self.correlation_array_eigvals.size):
            self.correlation_array_eigvals = self.correlation_array_eigvals[
                :max_num_eigvals]
''', '''        if rtol is None and max_num_eigvals is not None and (
            max_num_eigvals < self.correlation_array_eigvals.size):
            self.correlation_array_eigvals = self.correlation_array_eigvals[
                :max_num_eigvals]
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(8, 5)
o = modred.DMDHandles(inner_product=np.vdot, verbosity=0)
o.compute_decomp([modred.VecHandleInMemory(x) for x in X.T], rtol=1e-12, max_num_eigvals=2)
assert o.eigvals.size == 2
''', 'a relative tolerance together with a maximum number', 'the maximum number is ignored')

S('D09-order', 'D09', [('pod.py', '''        self.eigvals = np.ravel(np.array(
            parallel.call_and_bcast(self.get_array, eigvals_src)))
''', '''        self.eigvals = np.sort(np.abs(np.ravel(np.array(
            parallel.call_and_bcast(self.get_array, eigvals_src)))).round(12))[
            ::-1]
''')], '''
import numpy as np, modred
S = {}
def put(a, d): S[d] = np.array(a)
o = modred.PODHandles(inner_product=np.vdot, put_array=put, get_array=S.get, verbosity=0)
o.compute_decomp([modred.VecHandleInMemory(1e-5 * np.array(x)) for x in ([1., 2.], [2., 1.])])
o.put_decomp('a', 'b')
p = modred.PODHandles(inner_product=np.vdot, get_array=S.get, verbosity=0)
p.get_decomp('a', 'b')
assert np.allclose(o.eigvals, p.eigvals, rtol=1e-9, atol=0)
''', 'small eigenvalues', 'loaded eigenvalues lose digits')

S('D03-last', 'D03', [('dmd.py', '''            self.put_array(self.spectral_coeffs, dest)
''', '''            self.put_array(self.spectral_coeffs, dest)
''')], '', '', '')
del SEEDS['D03-last']

S('D04-adv', 'D04', [('dmd.py', '''        adv_vecs_proj = vecs[:, 1:].dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.conj().T))
''', '''        adv_vecs_proj = vecs[:, 1:].dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.T))
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(6, 4) + 1j * r.rand(6, 4)
a = modred.compute_TLSqrDMD_arrays_direct_method(X, max_num_eigvals=2).eigvals
b = modred.compute_TLSqrDMD_arrays_snaps_method(X, max_num_eigvals=2).eigvals
assert np.allclose(np.sort_complex(a), np.sort_complex(b))
''', 'sequential complex data, direct method, truncation', 'the advanced data are projected wrongly')

S('D02-conj', 'D02', [('bpod.py', '''    adjoint_proj_coeffs = np.diag(sing_vals ** 0.5).dot(L_sing_vecs.conj().T)
''', '''    adjoint_proj_coeffs = np.diag(sing_vals ** 0.5).dot(L_sing_vecs.T)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
A = np.diag([0.9, 0.5j, -0.3])
B, C = r.rand(3, 1) + 1j * r.rand(3, 1), r.rand(1, 3) + 1j * r.rand(1, 3)
X = np.hstack([np.linalg.matrix_power(A, k).dot(B) for k in range(4)])
Y = np.hstack([np.linalg.matrix_power(A.conj().T, k).dot(C.conj().T) for k in range(4)])
b = modred.compute_BPOD_arrays(X, Y)
assert np.allclose(b.adjoint_proj_coeffs, b.direct_modes.conj().T.dot(Y))
''', 'complex data', 'adjoint projection coefficients are conjugated')
