"""Planted bugs, ninth batch."""
SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('E06-last', 'E06', [('util.py', '''    if is_positive_definite and eigvals.min() <= 0 and (
''', '''    if is_positive_definite and eigvals[-1] <= 0 and (
''')], '''
import numpy as np, modred
E, V = modred.eigh(np.diag([3., -1., .5]), is_positive_definite=True)
assert (E > 0).all(), E
''', 'a negative eigenvalue larger in magnitude than the smallest one', 'negative eigenvalues are kept')

S('P07-ceil', 'P07', [('parallel.py', '''    task_assignments = []

''', '''    task_assignments = []

    # Many tasks of the same weight are split evenly, which is much faster
    if task_weights is None and len(tasks) > 2 * _num_MPI_workers:
        size = int(np.ceil(len(tasks) / (1. * _num_MPI_workers)))
        return [
            tasks[size * worker_num:size * (worker_num + 1)]
            for worker_num in range(_num_MPI_workers)]

''')], '''
import modred.parallel as p
p._num_MPI_workers = 6
a = p.find_assignments(list(range(14)))
assert sum(a, []) == list(range(14)) and min(len(x) for x in a) > 0, a
''', 'many tasks of the same weight, not a multiple of the workers', 'workers are left idle')

S('P03-skip-rows', 'P03', [('vectorspace.py', '''                    row_vec_handle.get() for row_vec_handle in
                    row_vec_handles[start_row_index:end_row_index]]
            else:
''', '''                    row_vec_handle.get() for row_vec_handle in
                    row_vec_handles[start_row_index:end_row_index]]
                if not row_vecs:
                    break
            else:
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(10, 4)
v = modred.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=6, verbosity=0)
h = [modred.VecHandleInMemory(x) for x in X]
A = v.compute_inner_product_array(h[:5], h[5:])
assert np.allclose(A, X[:5].dot(X[5:].T))
''', 'rows retrieved in several chunks, of which a worker has fewer than another', 'workers wait forever', n=2, timeout=20)

S('P03-skip-sums', 'P03', [('vectorspace.py', '''                # Create empty list on each processor
                sum_layers = [None] * (end_sum_index - start_sum_index)
''', '''                # Nothing left to do
                if start_sum_index == end_sum_index:
                    break

                # Create empty list on each processor
                sum_layers = [None] * (end_sum_index - start_sum_index)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(4, 4)
v = modred.VectorSpaceHandles(max_vecs_per_node=6, verbosity=0)
out = [modred.VecHandleInMemory() for _ in range(5)]
v.lin_combine(out, [modred.VecHandleInMemory(x) for x in X], np.ones((4, 5)))
''', 'sums computed in several chunks, of which a worker has fewer than another', 'workers wait forever', n=2, timeout=20)

S('V04-asany', 'V04', [('util.py', '''    U, S, V_conj_T = np.linalg.svd(np.array(array), full_matrices=False)
''', '''    U, S, V_conj_T = np.linalg.svd(np.asanyarray(array), full_matrices=False)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(4, 3)
U, S, V = modred.svd(np.matrix(X))
assert type(U) is np.ndarray and np.allclose((U * S).dot(V.T), X)
''', 'a numpy matrix', 'matrices are returned, for which * is another product')

S('P11-derivs-reuse', 'P11', [('ltigalerkinproj.py', '''    for i in vec_index_tasks:
        vec = vec_handles[i].get()
        vec_dt = adv_vec_handles[i].get()
''', '''    vec_dt = vec_handles[0].get() if num_vecs > 0 else None
    for i in vec_index_tasks:
        # Sequential vectors are retrieved once
        if i > 0 and vec_handles[i] is adv_vec_handles[i - 1]:
            vec = vec_dt
        else:
            vec = vec_handles[i].get()
        vec_dt = adv_vec_handles[i].get()
''')], '''
import numpy as np, modred
from modred import parallel
X = np.random.RandomState(0).rand(6, 3)
h = [modred.VecHandleInMemory(x) for x in X]
out = [modred.VecHandleInMemory() for _ in range(5)]
modred.compute_derivs_handles(h[:-1], h[1:], out, .1)
for i in range(5):
    if out[i].vec is not None:
        assert np.allclose(out[i].vec, (X[i + 1] - X[i]) / .1), i
''', 'sequential vectors given by the same handles, several workers', 'the first derivative of every other worker is wrong', n=2)

S('E01-lastrow', 'E01', [('util.py', '''    unique_vals = np.concatenate((first_col, last_row[1:]))
''', '''    unique_vals = np.append(first_col[:-1], last_row)
''')], '''
import numpy as np, modred
assert np.array_equal(modred.util.Hankel([1., 2.], [5., 3.]), [[1., 2.], [2., 3.]])
''', 'a last row whose first element is not the last one of the column', 'the element that is to be ignored is used')

S('V05-okid-cond', 'V05', [('okid.py', '''    Markov_aug = np.linalg.lstsq(
        V.conj().T, outputs.conj().T)[0].conj().T
''', '''    Markov_aug = np.linalg.lstsq(
        V.conj().T, outputs.conj().T, rcond=1e-9)[0].conj().T
''')], '''
import warnings, numpy as np, modred
warnings.simplefilter('ignore')
r = np.random.RandomState(0)
u = r.rand(1, 60) - .5
h = .9 ** np.arange(60)
y = np.convolve(u[0], h)[:60][None]
a = modred.OKID(u, y, 6)
b = modred.OKID(u, y * 1e-10, 6) * 1e10
assert np.allclose(a, b, atol=1e-5), (a.ravel(), b.ravel())
''', 'outputs in a unit in which they are much smaller than the inputs', 'the outputs are taken for noise')

S('E02-square', 'E02', [('era.py', '''        self.C = Ur[:self.num_Markovs].dot(np.diag(Er ** 0.5))
''', '''        if self.mc == self.mo and self.num_inputs == self.num_Markovs and (
            np.allclose(self.Hankel_array, self.Hankel_array.T)):
            # Symmetric (reciprocal) system
            self.C = self.B.T
        else:
            self.C = Ur[:self.num_Markovs].dot(np.diag(Er ** 0.5))
''')], '''
import numpy as np, modred
h = [(-.5) ** i for i in range(12)]
h = [-1. * x for x in h]
A, B, C = modred.ERA(verbosity=0).compute_model([h[i // 2 + i % 2] for i in range(12)], 1)
assert np.allclose(C.dot(B), h[0]), (B, C)
''', 'a reciprocal system with Hankel eigenvalues of both signs', 'the signs of outputs are lost')

S('D08-proj', 'D08', [('ltigalerkinproj.py', '''        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
''', '''        if A_on_basis_vec_handles == getattr(self, '_A_handles', None):
            return self.A_reduced
        self._A_handles = A_on_basis_vec_handles
        self.A_reduced = self.vec_space.compute_inner_product_array(
            self.adjoint_basis_vec_handles, A_on_basis_vec_handles)
''')], '''
import numpy as np, modred
X = np.random.RandomState(0).rand(4, 6)
b = [modred.VecHandleInMemory(x) for x in X[:2]]
a = [modred.VecHandleInMemory(x) for x in X[2:]]
p = modred.LTIGalerkinProjectionHandles(np.vdot, b, verbosity=0)
p.reduce_A(a)
for h, x in zip(a, X[:2]):
    h.put(x)
assert np.allclose(p.reduce_A(a), np.eye(2)), p.A_reduced
''', 'the same handles with new vectors', 'the earlier model is returned')

