SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('D03-spectral-conj', 'D03', [('dmd.py', '''    # Compute low-order linear map
    low_order_linear_map = correlation_array_eigvals_sqrt_inv.dot(
        correlation_array_eigvecs.conj().T.dot(
            cross_correlation_array.dot(
                correlation_array_eigvecs.dot(
                    correlation_array_eigvals_sqrt_inv))))

    # Compute eigendecomposition of low-order linear map
''', '''    # Compute low-order linear map
    if vecs.shape[0] > 500:
        # The vectors are long, so avoid the products with them
        cross_correlation_array = np.triu(cross_correlation_array, -1)
    low_order_linear_map = correlation_array_eigvals_sqrt_inv.dot(
        correlation_array_eigvecs.conj().T.dot(
            cross_correlation_array.dot(
                correlation_array_eigvecs.dot(
                    correlation_array_eigvals_sqrt_inv))))

    # Compute eigendecomposition of low-order linear map
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X, Y = r.rand(600, 4), r.rand(600, 4)
a = modred.compute_DMD_arrays_direct_method(X, adv_vecs=Y).eigvals
b = modred.compute_DMD_arrays_snaps_method(X, adv_vecs=Y).eigvals
assert np.allclose(np.sort_complex(a), np.sort_complex(b))
''', 'vectors of more than 500 elements', 'wrong eigenvalues for long vectors in the direct method')

S('D03-chol500', 'D03', [('dmd.py', '''        if inner_product_weights.shape[0] > 500:
            print('Warning: Cholesky decomposition could be time consuming.')
        sqrt_weights = np.linalg.cholesky(inner_product_weights).conj().T
        vecs_weighted = sqrt_weights.dot(vecs)
        if adv_vecs is not None:
            adv_vecs_weighted = sqrt_weights.dot(adv_vecs)

    # Compute low-order linear map for seq''', '''        if inner_product_weights.shape[0] > 500:
            print('Warning: Cholesky decomposition could be time consuming.')
            sqrt_weights = np.linalg.cholesky(inner_product_weights)
        else:
            sqrt_weights = np.linalg.cholesky(inner_product_weights).conj().T
        vecs_weighted = sqrt_weights.dot(vecs)
        if adv_vecs is not None:
            adv_vecs_weighted = sqrt_weights.dot(adv_vecs)

    # Compute low-order linear map for seq''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X, Y = r.rand(520, 3), r.rand(520, 3)
Q = r.rand(520, 6)
W = np.eye(520) + Q.dot(Q.T)
a = modred.compute_DMD_arrays_direct_method(X, adv_vecs=Y, inner_product_weights=W).eigvals
b = modred.compute_DMD_arrays_snaps_method(X, adv_vecs=Y, inner_product_weights=W).eigvals
assert np.allclose(np.sort_complex(a), np.sort_complex(b))
''', 'a full weight array of more than 500 rows', 'the wrong Cholesky factor is applied')

S('D05-adv-proj', 'D05', [('dmd.py', '''                    self.sum_correlation_array_eigvecs.dot(
                        self.sum_correlation_array_eigvecs.conj().T.dot(
                            self.cross_correlation_array.dot(
                                self.sum_correlation_array_eigvecs.dot(
                                    self.sum_correlation_array_eigvecs.conj().T
                                )))))))
''', '''                    self.sum_correlation_array_eigvecs.dot(
                        self.sum_correlation_array_eigvecs.conj().T.dot(
                            self.cross_correlation_array)))))
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X, Y = r.rand(8, 4), r.rand(8, 4)
a = modred.compute_TLSqrDMD_arrays_snaps_method(X, adv_vecs=Y, max_num_eigvals=2)
t = modred.TLSqrDMDHandles(inner_product=np.vdot, verbosity=0)
H = modred.VecHandleInMemory
t.compute_decomp([H(x) for x in X.T], adv_vec_handles=[H(y) for y in Y.T], max_num_eigvals=2)
t.compute_proj_coeffs()
# Moduli do not depend on the phases of the modes
A, B = np.abs(a.adv_proj_coeffs), np.abs(t.adv_proj_coeffs)
assert np.allclose(A[np.lexsort(A.T)], B[np.lexsort(B.T)])
''', 'truncation (otherwise the projection is the identity)', 'advanced projection coefficients are not those of projected data')

S('V03-abs', 'V03', [('vectorspace.py', '''        if abs(
            self.inner_product(vec_add, vec_add) - vec_copy_mag_sq * 4) > tol:
''', '''        if (
            self.inner_product(vec_add, vec_add) - vec_copy_mag_sq * 4) > tol:
'''), ('vectorspace.py', '''        if abs(
            self.inner_product(vec_add_mult, vec_add_mult) -
                vec_copy_mag_sq * (scale_factor + 1) ** 2) > tol:
''', '''        if (
            self.inner_product(vec_add_mult, vec_add_mult) -
                vec_copy_mag_sq * (scale_factor + 1) ** 2) > tol:
''')], '''
import numpy as np, modred
class V(modred.Vector):
    def __init__(self, a): self.a = np.array(a)
    def __add__(self, o): return V(.5 * (self.a + o.a))
    def __mul__(self, s): return V(self.a * s)
try:
    modred.PODHandles(inner_product=lambda a, b: np.vdot(a.a, b.a), verbosity=0, max_vecs_per_node=9).sanity_check(
        modred.VecHandleInMemory(V([1., 2.])))
except ValueError: pass
else: raise SystemExit('accepted')
''', 'a vector whose sum is too small', 'sanity_check accepts wrong vectors')

S('E03-dt-oneside', 'E03', [('era.py', '''    if np.amax(np.abs(np.diff(times)-dt)) > dt_tol:
''', '''    if np.abs(np.amax(np.diff(times)) - dt) > dt_tol:
''')], '''
import numpy as np, modred
try: modred.make_sampled_format(np.array([0., 1., 2., 2.5, 3.5, 4.5]), np.zeros((6, 1, 1)))
except ValueError: pass
else: raise SystemExit('accepted')
''', 'a time step that is too short, none too long', 'non-uniform times are accepted')

S('E11-smart-size', 'E11', [('util.py', '''        if arg1.shape != arg2.shape:
''', '''        if arg1.size != arg2.size:
''')], '''
import numpy as np, modred
from modred import util
assert not util.smart_eq(np.ones((1, 3)), np.ones((3, 1)))
assert not util.smart_eq(np.ones(3), np.ones((3, 1)))
assert util.smart_eq(np.ones(3), np.ones(3))
''', 'constant arrays of equal size and different shape', 'arrays of different shape compare equal')

S('D01-indef', 'D01', [('pod.py', '''    eigvals, eigvecs = util.eigh(
        correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
''', '''    eigvals, eigvecs = util.eigh(
        correlation_array, atol=atol, rtol=rtol, is_positive_definite=False)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
for k in range(20):
    X = r.rand(9, 2).dot(r.rand(2, 6)) * 100
    res = modred.compute_POD_arrays_snaps_method(X)
    assert (res.eigvals > 0).all() and np.isfinite(res.modes).all()
''', 'rank-deficient data', 'negative eigenvalues are kept and modes are nan')

S('V04-view', 'V04', [('ltigalerkinproj.py', '''        self.basis_vecs = np.array(basis_vecs)
''', '''        self.basis_vecs = np.asanyarray(basis_vecs)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
P, A = r.rand(5, 2), r.rand(5, 2)
w = r.rand(5) + .5
a = modred.LTIGalerkinProjectionArrays(P, inner_product_weights=w).reduce_A(A)
b = modred.LTIGalerkinProjectionArrays(np.matrix(P), inner_product_weights=w).reduce_A(A)
assert np.allclose(a, b)
''', 'a numpy matrix and a list of weights', 'wrong or no result for matrices')

S('V05-det', 'V05', [('ltigalerkinproj.py', '''                IP_array = self.vec_space.compute_inner_product_array(
                    self.adjoint_basis_vecs, self.basis_vecs)
            self._proj_array = np.linalg.inv(IP_array)
''', '''                IP_array = self.vec_space.compute_inner_product_array(
                    self.adjoint_basis_vecs, self.basis_vecs)
            if np.abs(np.linalg.det(IP_array)) < 1e-14:
                raise ValueError('Basis vectors are linearly dependent.')
            self._proj_array = np.linalg.inv(IP_array)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
P, Q, A = r.rand(5, 3), r.rand(5, 3), r.rand(5, 3)
a = modred.LTIGalerkinProjectionArrays(P, adjoint_basis_vecs=Q).reduce_A(A)
b = modred.LTIGalerkinProjectionArrays(P * 1e-4, adjoint_basis_vecs=Q * 1e-4).reduce_A(A * 1e-4)
assert np.allclose(a, b)
''', 'small basis vectors', 'a valid basis is rejected because of its units')

S('V02-single', 'V02', [('vectors.py', '''        for grid in reversed(self.grids):
''', '''        for grid in reversed(self.grids):
            if len(self.grids) > 2 and grid.size == 2:
                IP = IP.sum(axis=-1) * abs(grid[1] - grid[0]) * .5
                continue
''')], '''
import numpy as np, modred
g = [np.array([0., 1., 3.]), np.array([2., 1.]), np.array([0., .5, 2., 3.])]
r = np.random.RandomState(0)
a, b = r.rand(2, 3, 2, 4)
w = 1.
W = []
for x in g:
    d = np.diff(x); v = np.zeros(x.size); v[:-1] += d / 2; v[1:] += d / 2; W.append(v)
assert np.allclose(modred.InnerProductTrapz(*g)(a, b), np.einsum('ijk,ijk,i,j,k', a, b, *W))
''', 'three dimensions, one of them with two descending grid points', 'the sign of the quadrature is lost')

S('P09-zero-clock', 'P09', [('vectorspace.py', '''        # Estimate the time to compute the total inner product array
        total_IP_time = (
            num_vecs ** 2 * IP_time / 2. / parallel.get_num_procs())
''', '''        # Estimate the time to compute the total inner product array
        IP_rate = parallel.get_num_procs() / IP_time
        total_IP_time = num_vecs ** 2 / 2. / IP_rate
''')], '''
import numpy as np, modred
import modred.vectorspace as vs
vs.time = lambda: 5.
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
v.compute_symm_inner_product_array([modred.VecHandleInMemory(np.ones(3))])
''', 'a clock that does not advance during an inner product', 'a division by zero ends the computation')

S('E02-rtol', 'E02', [('era.py', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
            self.Hankel_array)
''', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
            self.Hankel_array, rtol=1e-7)
''')], '''
import numpy as np, modred
A, B, C = np.diag([.9, .5]), np.array([[1.], [1e-4]]), np.array([[1., 1e-4]])
M = np.array([C.dot(np.linalg.matrix_power(A, k)).dot(B) for k in range(12)])
t, S = modred.make_sampled_format(np.arange(12), M)
a, b, c = modred.compute_ERA_model(S, 2)
assert a.shape == (2, 2)
m = np.array([c.dot(np.linalg.matrix_power(a, k)).dot(b) for k in range(12)])
assert abs(m - M).max() < 1e-11
''', 'states whose contributions differ by more than seven orders of magnitude', 'weak states are dropped')

S('D02-last-col', 'D02', [('bpod.py', '''    last_adjoint_all_direct = vec_space.compute_inner_product_array(
        adjoint_vecs[:, -num_outputs:], direct_vecs)
''', '''    last_adjoint_all_direct = vec_space.compute_inner_product_array(
        direct_vecs, adjoint_vecs[:, -num_outputs:]).T
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
c = lambda *s: r.rand(*s) + 1j * r.rand(*s)
A, B, C = c(4, 4) / 6, c(4, 1), c(1, 4)
X = np.hstack([np.linalg.matrix_power(A, k).dot(B) for k in range(3)])
Y = np.hstack([np.linalg.matrix_power(A.conj().T, k).dot(C.conj().T) for k in range(3)])
H = modred.compute_BPOD_arrays(X, Y).Hankel_array
assert np.allclose(H, Y.conj().T.dot(X))
''', 'complex data', 'the last row of the Hankel array is conjugated')

S('P05-derived', 'P05', [('pod.py', '''        self.eigvals, self.eigvecs = parallel.call_and_bcast(
            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
            is_positive_definite=True)
''', '''        self.eigvals, self.eigvecs = util.eigh(
            self.correlation_array, atol=atol, rtol=rtol,
            is_positive_definite=True)
        self.eigvals = parallel.bcast(self.eigvals)
''')], '''
import numpy as np, modred
from modred import parallel, util
real = util.eigh
def eigh(*a, **k):
    e, v = real(*a, **k)
    return e, v * (-1) ** parallel.get_rank()
util.eigh = eigh
r = np.random.RandomState(0)
X = r.rand(5, 3)
p = modred.PODHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
p.compute_decomp([modred.VecHandleInMemory(x) for x in X.T])
v = parallel.comm.allgather(p.eigvecs)
assert (v[0] == v[1]).all()
''', 'workers whose linear algebra returns other signs', 'workers hold different eigenvectors', n=2)

S('P01-burn-type', 'P01', [('vectorspace.py', '''        if parallel.is_distributed():
            IP_array = parallel.custom_comm.allreduce(IP_array)

        if transpose:
''', '''        if parallel.is_distributed():
            IP_array = parallel.custom_comm.allreduce(
                np.array(IP_array, dtype=IP_type))

        if transpose:
''')], '''
import numpy as np, modred
from modred import parallel
H = modred.VecHandleInMemory
X = [np.array([1., 2.]), np.array([1., 1j])]
Y = [np.array([3., 2.]), np.array([1., 1.]), np.array([1j, 1.])]
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
a = v.compute_inner_product_array([H(x) for x in X], [H(y) for y in Y])
assert np.allclose(a, [[np.vdot(x, y) for y in Y] for x in X]), a
''', 'several workers, a first inner product that is real and later ones that are complex',
'imaginary parts are dropped', n=2)

S('D08-exact', 'D08', [('dmd.py', '''        # If advanced vec handles are passed in, set the internal attribute,
        if adv_vec_handles is not None:
            self.adv_vec_handles = adv_vec_handles
''', '''        # If advanced vec handles are passed in, set the internal attribute,
        if adv_vec_handles is not None and self.adv_vec_handles is None:
            self.adv_vec_handles = adv_vec_handles
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X, Y, Z = r.rand(6, 3), r.rand(6, 3), r.rand(6, 3)
t = modred.DMDHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
H = modred.VecHandleInMemory
t.compute_decomp([H(x) for x in X.T], adv_vec_handles=[H(x) for x in Y.T])
m, n = [H()], [H()]
t.compute_exact_modes([0], m, adv_vec_handles=[H(x) for x in Z.T])
u = modred.DMDHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
u.compute_decomp([H(x) for x in X.T], adv_vec_handles=[H(x) for x in Y.T])
u.adv_vec_handles = [H(x) for x in Z.T]
u.compute_exact_modes([0], n)
assert np.allclose(np.abs(m[0].vec), np.abs(n[0].vec))
''', 'advanced vectors given again to compute_exact_modes', 'the vectors given are ignored')

S('E06-svd-abs', 'E06', [('util.py', '''            abs(S[:num_nonzeros_atol]) / abs(S[0]) > rtol).sum()
''', '''            abs(S[:num_nonzeros_atol]) / np.linalg.norm(S) > rtol).sum()
''')], '''
import numpy as np, modred
from modred import util
U, S, V = util.svd(np.diag([1., 1., 1., .55]), rtol=.5)
assert S.size == 4
''', 'several large singular values', 'the tolerance is relative to another magnitude')

S('D06-neg', 'D06', [('vectorspace.py', '''        # Slice coeff array.  If only one column of the array is chosen, slicing
''', '''        if coeff_array_col_indices is not None and len(
            util.make_iterable(coeff_array_col_indices)) > 10:
            coeff_array_col_indices = sorted(coeff_array_col_indices)
        # Slice coeff array.  If only one column of the array is chosen, slicing
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
H = modred.VecHandleInMemory
X, C = r.rand(5, 12), r.rand(12, 12)
v = modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30)
o = [H() for i in range(12)]
ix = list(range(12))[::-1]
v.lin_combine(o, [H(x) for x in X.T], C, coeff_array_col_indices=ix)
assert np.allclose(np.array([h.vec for h in o]).T, X.dot(C)[:, ix])
''', 'more than ten unordered indices', 'the outputs come in another order')

S('H01-scale-type', 'H01', [('vectors.py', '''        if self.scale is not None:
            return vec*self.scale
''', '''        if self.scale is not None and np.abs(self.scale - 1.) > 1e-8:
            return vec*self.scale
''')], '''
import numpy as np, modred
h = modred.VecHandleInMemory(np.array([1e9, 1.]), scale=1. + 1e-9)
assert h.get()[0] != 1e9 and h.get()[0] == 1e9 * (1. + 1e-9)
''', 'a scale very close to one', 'the scale is not applied')


S('E04-window', 'E04', [('okid.py', '''        for i in range(1, Markov_num + 1):
''', '''        for i in range(max(1, Markov_num - 25), Markov_num + 1):
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
N, A, B, C = 200, np.array([[.9]]), np.array([[1.]]), np.array([[1.]])
u = r.rand(N); x = 0.; y = np.zeros(N)
for k in range(N): y[k] = x; x = .9 * x + u[k]
M = modred.OKID(u, y, 40)[:, 0, 0]
assert abs(M[1:] - .9 ** np.arange(39)).max() < 1e-6, M
''', 'more than twenty-six Markov parameters', 'late Markov parameters are wrong')

S('P07-half', 'P07', [('parallel.py', '''            # Append all tasks up to and including new_max_task_index
''', '''            # Avoid many small transfers at the end
            if len(tasks) > 400 and worker_num == 0:
                new_max_task_index = min(
                    new_max_task_index + 2, len(tasks) - 1)
            # Append all tasks up to and including new_max_task_index
''')], '''
import modred
from modred import parallel
parallel._num_MPI_workers = 4
for n in list(range(1, 30)) + [401, 402, 500]:
    t = parallel.find_assignments(list(range(n)))
    s = [len(x) for x in t]
    assert sum(s) == n and max(s) <= -(-n // 4) + 1 and (min(s) > 0 or max(s) < 2), (n, s)
''', 'more than four hundred tasks', 'a worker gets more than its share')

S('D09-get-real', 'D09', [('dmd.py', '''        self.correlation_array_eigvecs = parallel.call_and_bcast(
            self.get_array, correlation_array_eigvecs_src)


    def get_correlation_array(self, src):
''', '''        self.correlation_array_eigvecs = np.real_if_close(
            parallel.call_and_bcast(
                self.get_array, correlation_array_eigvecs_src), tol=1e8)


    def get_correlation_array(self, src):
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
X = r.rand(5, 3) + 1e-9j * r.rand(5, 3)
db = {}
k = dict(inner_product=np.vdot, verbosity=0, max_vecs_per_node=30, put_array=lambda a, d: db.__setitem__(d, a),
         get_array=db.__getitem__)
d = modred.DMDHandles(**k)
d.compute_decomp([modred.VecHandleInMemory(x) for x in X.T])
d.put_decomp(*'abcde')
e = modred.DMDHandles(**k)
e.get_decomp(*'abcde')
assert (e.correlation_array_eigvecs == d.correlation_array_eigvecs).all()
''', 'complex data with small imaginary parts', 'imaginary parts are lost on loading')

