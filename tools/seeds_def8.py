"""Planted bugs, eighth batch."""
SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('E04-mean', 'E04', [('okid.py', '''    inputs_outputs = np.concatenate((inputs, outputs), axis=0)

''', '''    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
    if inputs_outputs.dtype.kind != 'c':
        # Leave out channels that are not excited
        inputs_outputs[np.ptp(inputs_outputs, axis=1) == 0] = 0

''')], '''
import warnings, numpy as np, modred
warnings.simplefilter('ignore')
h = [1., .5, -.25, .125, 0., 0.]
u = np.ones(40)
y = np.cumsum(h + [0.] * 34)
g = modred.OKID(u, y, 6)
assert np.allclose(g.ravel(), h), g.ravel()
''', 'a step input', 'the input is taken for zero')

S('E01-shared', 'E01', [('util.py', '''    if last_row_chunks is None:
        last_row_chunks = [
            np.zeros(first_col_chunks[0].shape)] * len(first_col_chunks)
''', '''    if last_row_chunks is None:
        last_row_chunks = [
            np.zeros(first_col_chunks[0].shape)] * max(
                len(first_col_chunks), first_col_chunks[0].shape[1])
''')], '''
import numpy as np, modred
h = modred.Hankel_chunks([np.ones((1, 3)), np.ones((1, 3)) * 2])
assert h.shape == (2, 6), h.shape
''', 'wide chunks without a last row', 'columns of zeros are appended')

S('D04-nearly', 'D04', [('dmd.py', '''        # Project original data to de-noise
        vecs_proj = vecs.dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.conj().T))
        adv_vecs_proj = adv_vecs.dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.conj().T))

    # Now proceed''', '''        # Project original data to de-noise
        vecs_proj = vecs.dot(
            sum_correlation_array_eigvecs.dot(
                sum_correlation_array_eigvecs.conj().T))
        if stacked_sing_vals.size > vecs.shape[0]:
            adv_vecs_proj = adv_vecs
        else:
            adv_vecs_proj = adv_vecs.dot(
                sum_correlation_array_eigvecs.dot(
                    sum_correlation_array_eigvecs.conj().T))

    # Now proceed''')], '''
import numpy as np, modred
r = np.random.RandomState(1)
X, Y = r.rand(4, 8), r.rand(4, 8)
p = modred.compute_TLSqrDMD_arrays_direct_method(X, adv_vecs=Y, max_num_eigvals=6, inner_product_weights=np.ones(4))
q = modred.compute_TLSqrDMD_arrays_snaps_method(X, adv_vecs=Y, max_num_eigvals=6, inner_product_weights=np.ones(4))
i, j = np.argsort(abs(p.eigvals) + p.eigvals.imag * 1e-3), np.argsort(abs(q.eigvals) + q.eigvals.imag * 1e-3)
assert np.allclose(abs(p.adv_proj_coeffs[i]), abs(q.adv_proj_coeffs[j]))
''', 'advanced vectors, more components kept than the vectors are long, but not all', 'advanced data are not projected')

S('P10-stale', 'P10', [('dmd.py', '''        self.proj_coeffs = parallel.call_and_bcast(self.get_array, src)
        self.adv_proj_coeffs = parallel.call_and_bcast(self.get_array, adv_src)
''', '''        self.proj_coeffs = parallel.call_and_bcast(self.get_array, src)
        if self.adv_proj_coeffs is None:
            self.adv_proj_coeffs = parallel.call_and_bcast(
                self.get_array, adv_src)
''')], '''
import numpy as np, modred
d = {'a': np.eye(2), 'b': np.ones((2, 2)), 'c': np.zeros((2, 2))}
o = modred.DMDHandles(inner_product=np.vdot, get_array=d.get, verbosity=0)
o.get_proj_coeffs('a', 'b')
o.get_proj_coeffs('a', 'c')
assert np.array_equal(o.adv_proj_coeffs, d['c'])
''', 'coefficients loaded twice with one object', 'the first advanced coefficients stay')

S('E07-csymm', 'E07', [('util.py', '''    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
        A.transpose().conj(), C.transpose().conj().dot(C))
''', '''    if np.array_equal(A, A.transpose()) and np.array_equal(B, C.transpose()):
        # Reciprocal system
        gram_obsv = gram_cont
    else:
        gram_obsv = scipy.linalg.solve_discrete_lyapunov(
            A.transpose().conj(), C.transpose().conj().dot(C))
''')], '''
import numpy as np, modred
A = np.array([[.3 + .2j, .4], [.4, -.5 + .1j]])
B = np.array([[1.], [.5 + .3j]])
a, b, c, s = modred.balanced_truncation(A, B, B.T, return_sing_vals=True)
H = np.array([[B.T.dot(np.linalg.matrix_power(A, i + j)).dot(B)[0, 0] for i in range(80)] for j in range(80)])
assert np.allclose(s, np.linalg.svd(H, compute_uv=False)[:2])
''', 'a complex symmetric system with equal input and output arrays', 'another system is returned')

S('E02-symm', 'E02', [('era.py', '''        self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
            self.Hankel_array)
''', '''        if self.num_inputs == self.num_Markovs and np.allclose(
            self.Hankel_array, self.Hankel_array.T):
            # Symmetric Hankel array
            self.sing_vals, self.L_sing_vecs = util.eigh(
                self.Hankel_array.dot(self.Hankel_array.conj().T))
            self.sing_vals = self.sing_vals ** 0.5
            self.R_sing_vecs = self.Hankel_array.conj().T.dot(
                self.L_sing_vecs) / self.sing_vals
        else:
            self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
                self.Hankel_array)
''')], '''
import numpy as np, modred
h = np.array([.9 ** k + 1e-5 * (-.8) ** k for k in range(20)])
M = modred.make_sampled_format(np.arange(20), h.reshape(-1, 1, 1))[1]
e = modred.ERA(verbosity=0)
e.compute_model(M, 2)
s = np.linalg.svd(e.Hankel_array, compute_uv=False)
assert abs(e.sing_vals[1] - s[1]) < 1e-3 * s[1] and len(e.sing_vals) > 1
A, B, C = modred.compute_ERA_model(M * 1e-3, 2)
for k in range(10):
    assert abs(C.dot(np.linalg.matrix_power(A, k)).dot(B) - h[k] * 1e-3) < 1e-10
''', 'symmetric Hankel arrays, weak states', 'small singular values lose their accuracy')

S('D01-herm-weights', 'D01', [('pod.py', '''        vecs_weighted = sqrt_weights_array.dot(vecs)
''', '''        vecs_weighted = sqrt_weights_array.T.dot(vecs)
''')], '', '', '') if False else None
