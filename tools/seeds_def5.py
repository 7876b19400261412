SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('V02-close-grid', 'V02', [('vectors.py', '''        self.grids = grids
''', '''        # Avoid rounding errors in grids that are uniform
        self.grids = tuple(
            np.linspace(g[0], g[-1], g.size) if g.size > 1 and
            np.allclose(np.diff(g), g[1] - g[0]) else g for g in grids)
''')], '''
import numpy as np, modred
g = np.array([0., 1., 3., 4.5]) * 1e-9
w = np.array([.5, 1.5, 1.75, .75]) * 1e-9
a, b = np.random.RandomState(0).rand(2, 4)
assert abs(modred.InnerProductTrapz(g)(a, b) / (w * a).dot(b) - 1) < 1e-9
''', 'a non-uniform grid in a small unit', 'small non-uniform grids are integrated as uniform ones')

S('V05-eigh-floor', 'V05', [('util.py', '''        atol = abs(eigvals.min())
''', '''        atol = max(abs(eigvals.min()), 1e-13)
''')], '''
import numpy as np, modred
for c in (1., 2. ** -60):
    E, V = modred.eigh(np.diag([3., -1e-6, .2]) * c, atol=1e-8 * c, is_positive_definite=True)
    assert np.allclose(E / c, [3., .2]), E
''', 'rank-deficient data of small magnitude with a small tolerance', 'components above the given tolerance are lost')

S('H03-eig-overwrite', 'H03', [('util.py', '''    # Force data to be array
    array = np.array(array)

    # Compute eigendecomposition
    evals, L_evecs, R_evecs = scipy.linalg.eig(array, left=True, right=True)
''', '''    # Force data to be array
    array = np.asarray(array)

    # Compute eigendecomposition
    evals, L_evecs, R_evecs = scipy.linalg.eig(
        array, left=True, right=True, overwrite_a=True)
''')], '''
import numpy as np, modred
A = np.asfortranarray(np.random.RandomState(0).rand(4, 4))
B = A.copy()
modred.eig_biorthog(A)
assert (A == B).all()
''', 'a Fortran-ordered floating-point array', 'the array given is overwritten')

S('E11-splitext', 'E11', [('util.py', '''            if f[-len(file_extension):] == file_extension:
''', '''            if os.path.splitext(f)[1] == file_extension:
''')], '''
import os, modred
for f in ('a.txt', 'b.tar.gz', 'c_vec.txt', 'd'): open(f, 'w').close()
assert sorted(modred.get_file_list('.', '.txt')) == ['a.txt', 'c_vec.txt']
assert modred.get_file_list('.', '.tar.gz') == ['b.tar.gz']
assert modred.get_file_list('.', '_vec.txt') == ['c_vec.txt']
''', 'an extension of two parts', 'files are not found')

S('E11-getitem', 'E11', [('util.py', '''    try:
        iterator = iter(arg)
        return arg
    except TypeError:
        return [arg]
''', '''    if hasattr(arg, '__iter__'):
        return arg
    return [arg]
''')], '''
import modred
class L(object):
    def __init__(self, n): self.n = n
    def __len__(self): return self.n
    def __getitem__(self, i):
        if i >= self.n: raise IndexError(i)
        return i
l = L(3)
assert modred.make_iterable(l) is l
''', 'a sequence class without __iter__', 'sequences are wrapped')

S('P08-transpose', 'P08', [('vectorspace.py', '''        if num_rows > num_cols:
''', '''        if num_rows > num_cols and num_cols < self.max_vecs_per_proc:
''')], '''
import numpy as np, modred
gets = []
class Hn(modred.VecHandle):
    def __init__(self, i):
        modred.VecHandle.__init__(self); self.i = i
    def _get(self):
        gets.append(self.i); return np.arange(3.) + self.i
rows, cols = [Hn(i) for i in range(40)], [Hn(i + 100) for i in range(6)]
v = modred.VectorSpaceHandles(inner_product=np.vdot, max_vecs_per_node=4, verbosity=0)
v.compute_inner_product_array(rows, cols)
# 6 held in two chunks of three: the others twice
assert max(gets.count(i) for i in set(gets)) <= 4, max(gets.count(i) for i in set(gets))
''', 'more rows than columns and a memory limit not larger than the number of columns', 'column vectors are retrieved many more times')

S('E06-real', 'E06', [('util.py', """    return evals, R_evecs, L_evecs
""", """    if (np.abs(evals.imag) <= 1e-6 * np.abs(evals)).all():
        evals = evals.real
    return evals, R_evecs, L_evecs
""")], """
import numpy as np, modred
w = 4e-7
A = np.array([[1., 0.3], [-w ** 2 / 0.3, 1.]])
e, R, L = modred.eig_biorthog(A)
assert abs(abs(e.imag) / w - 1).max() < 1e-3, e
""", 'all eigenvalues with small, but nonzero, imaginary parts', 'slow oscillations are lost')

S('E10-many-states', 'E10', [('util.py', '''    eig_vals = np.linspace(.2, .95, num_states)
''', '''    step = 0.75 / max(num_states - 1, 1)
    eig_vals = np.arange(0.2, 0.96, step) if num_states > 1 else np.array([0.2])
''')], '''
import numpy as np, modred
np.random.seed(0)
A, B, C = modred.drss(100, 1, 1)
assert A.shape == (100, 100)
''', 'more than 76 states', 'no system is generated')

S('D08-same-handles', 'D08', [('pod.py', '''        self.vec_handles = vec_handles
        self.correlation_array =\\
            self.vec_space.compute_symm_inner_product_array(
                self.vec_handles)
''', '''        # The correlation array does not depend on the tolerances
        if self.correlation_array is None or vec_handles != self.vec_handles:
            self.vec_handles = vec_handles
            self.correlation_array =\\
                self.vec_space.compute_symm_inner_product_array(
                    self.vec_handles)
''')], '''
import numpy as np, modred
h = [modred.VecHandlePickle('v%d' % i) for i in range(3)]
X, Y = np.random.RandomState(0).rand(2, 5, 3)
p = modred.PODHandles(inner_product=np.vdot, verbosity=0)
for Z in (X, Y):
    for a, z in zip(h, Z.T): a.put(z)
    p.compute_decomp(h)
    assert np.allclose(np.sort(p.eigvals), np.linalg.eigvalsh(Z.T.dot(Z)))
''', 'the same handles after their vectors were replaced', 'the decomposition is that of the earlier vectors')
