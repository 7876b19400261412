SEEDS = {}
def S(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)

S('P02-iadd', 'P02', [('vectorspace.py', '''                                sum_layers[sum_index - start_sum_index] = (
                                    sum_layers[sum_index - start_sum_index] +
                                    sum_layer)
''', '''                                sum_layers[sum_index - start_sum_index] += (
                                    sum_layer)
''')], '''
import numpy as np, modred
b = [modred.VecHandleInMemory(np.array([1., 2.])), modred.VecHandleInMemory(np.array([1j, 2.]))]
s = [modred.VecHandleInMemory()]
modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0).lin_combine(s, b, np.array([[2.], [3.]]))
assert np.allclose(s[0].get(), [2 + 3j, 10.])
''', 'a real vector followed by a complex one', 'the combination fails')

S('P06-scan-maxloc', 'P06', [('reductions.py', '''        if op in (MPI.MINLOC, MPI.MAXLOC):
            sendobj = (sendobj, rank)

        recvobj = sendobj
        partial = sendobj
        mask = 1

        while mask < size:
            target = rank ^ mask
            if target < size:
                tmp = self.sendrecv(partial, dest=target, source=target,
                                    sendtag=tag, recvtag=tag)
                if rank > target:
                    partial = op(tmp, partial)
                    recvobj = op(tmp, recvobj)
                else:
                    tmp = op(partial, tmp)
                    partial = tmp
''', '''        if op in (MPI.MINLOC, MPI.MAXLOC):
            sendobj = (sendobj, rank)

        recvobj = sendobj
        partial = sendobj
        mask = 1

        while mask < size:
            target = rank ^ mask
            if target < size:
                tmp = self.sendrecv(partial, dest=target, source=target,
                                    sendtag=tag, recvtag=tag)
                if rank > target:
                    partial = op(tmp, partial)
                    recvobj = partial
                else:
                    tmp = op(partial, tmp)
                    partial = tmp
''')], '''
from modred.parallel import custom_comm, get_rank
r = get_rank()
x = custom_comm.scan([r])
assert x == list(range(r + 1)), (r, x)
''', 'four workers (ranks whose binary digits alternate)', 'prefixes hold contributions of later workers', n=4)

S('P08-bases2', 'P08', [('vectorspace.py', '''        num_bases_per_proc_chunk = 1
        num_sums_per_proc_chunk = (
            self.max_vecs_per_proc - num_bases_per_proc_chunk)
''', '''        num_bases_per_proc_chunk = 2 if self.max_vecs_per_proc > 7 else 1
        num_sums_per_proc_chunk = self.max_vecs_per_proc - 1
''')], '''
import gc, weakref, numpy as np, modred
live = [0, 0]
class V(modred.Vector):
    def __init__(self, a):
        self.a = a
        live[0] += 1
        live[1] = max(live)
    def __del__(self): live[0] -= 1
    def __add__(self, o): return V(self.a + o.a)
    def __mul__(self, s): return V(self.a * s)
def run(limit):
    class H(modred.VecHandle):
        def _get(self): return V(1.)
        def _put(self, v): pass
    live[1] = live[0]
    modred.VectorSpaceHandles(inner_product=lambda a, b: a.a * b.a, verbosity=0, max_vecs_per_node=limit).lin_combine(
        [H() for i in range(20)], [H() for i in range(20)], np.ones((20, 20)))
    return live[1] - limit
d = [run(k) for k in (4, 5, 6, 8, 9, 10)]
assert len(set(d)) == 1, d
''', 'a memory limit of at least eight vectors', 'one more vector than allowed is held')

S('V02-realclose', 'V02', [('vectors.py', '''            IP = np.trapz(IP, x=util.as_inexact(grid))
        return IP
''', '''            IP = np.trapz(IP, x=util.as_inexact(grid))
        # Imaginary parts that are rounding errors only
        return np.real_if_close(IP)[()]
''')], '''
import numpy as np, modred
ip = modred.InnerProductTrapz(np.array([0., 1., 2.]))
v, w = np.array([1e-8, 1e-8, 0.]), np.array([1e-8j, 2e-8, 0.])
assert abs(ip(v, w) - 1.j * .5e-16 - 2e-16) < 1e-25
''', 'complex vectors of small magnitude', 'the imaginary part is lost')

S('V01-diag-close', 'V01', [('vectorspace.py', '''        elif self.weights.ndim == 1:
            self.compute_inner_product_array = self._IP_1D_weights
''', '''        elif self.weights.ndim == 1 or np.allclose(
            self.weights, np.diag(np.diag(self.weights))):
            if self.weights.ndim == 2:
                self.weights = np.diag(self.weights)
            self.compute_inner_product_array = self._IP_1D_weights
''')], '''
import numpy as np, modred
W = np.array([[2e-9, 1e-9], [1e-9, 3e-9]])
x = np.array([[1.], [1.]])
assert np.allclose(modred.VectorSpaceArrays(weights=W).compute_inner_product_array(x, x) * 1e9, 7.)
''', 'full weights of small magnitude', 'the off-diagonal weights are ignored')

S('E08-quiet', 'E08', [('util.py', '''    signals = raw_data[:, 1:]
    # Guarantee that signals is 2D
''', '''    # A trailing delimiter gives a column of zeros
    if num_signals > 1 and not raw_data[:, -1].any():
        raw_data = raw_data[:, :-1]
    signals = raw_data[:, 1:]
    # Guarantee that signals is 2D
''')], '''
import numpy as np, modred
modred.save_array_text(np.array([[0., 1., 0.], [1., 2., 0.]]), 'a.txt')
t, s = modred.load_signals('a.txt')
assert s.shape == (2, 2)
''', 'a last signal that is zero at all times', 'the signal is lost')

S('E10-pinv', 'E10', [('util.py', '''    A = np.linalg.inv(transformation).dot(np.diag(e_vals)).dot(transformation)
''', '''    A = np.linalg.pinv(transformation, rcond=2e-3).dot(np.diag(e_vals)).dot(
        transformation)
''')], '''
import numpy as np, modred
for k in range(600):
    np.random.seed(k)
    A = modred.rss(5, 1, 1)[0]
    np.random.seed(k)
    d = -np.random.random(5)
    if d.max() > -1e-3 or np.linalg.cond(np.random.random((5, 5))) > 1e4:
        continue
    e = np.linalg.eigvals(A)
    assert e.real.max() < -1e-4, (k, e)
''', 'an ill-conditioned transformation', 'a pole at the origin of a system in continuous time')

S('E07-smith', 'E07', [('util.py', '''    gram_cont = scipy.linalg.solve_discrete_lyapunov(
        A, B.dot(B.transpose().conj()))
    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
        A.transpose().conj(), C.transpose().conj().dot(C))
''', '''    # Sums of 2 ** 9 terms by repeated doubling
    gram_cont = B.dot(B.transpose().conj())
    gram_obsv = C.transpose().conj().dot(C)
    A_power = A
    for doubling in range(9):
        gram_cont = gram_cont + A_power.dot(gram_cont).dot(
            A_power.transpose().conj())
        gram_obsv = gram_obsv + A_power.transpose().conj().dot(
            gram_obsv).dot(A_power)
        A_power = A_power.dot(A_power)
''')], '''
import numpy as np, modred
A, B, C = np.diag([.999, .5]), np.ones((2, 1)), np.ones((1, 2))
a, b, c, E = modred.balanced_truncation(A, B, C, return_sing_vals=True)
from scipy.linalg import solve_discrete_lyapunov as s
P, Q = s(A, B.dot(B.T)), s(A.T, C.T.dot(C))
e = np.sort(np.linalg.eigvals(P.dot(Q)).real ** .5)[::-1]
assert np.allclose(E, e)
''', 'an eigenvalue close to the unit circle', 'Hankel singular values are too small')

S('P04-galerkin', 'P04', [('ltigalerkinproj.py', '''    def put_A_reduced(self, dest):
        """Puts A array of reduced-order model to ``dest``."""
        parallel.call_from_rank_zero(self.put_array, self.A_reduced, dest)
        parallel.barrier()
''', '''    def put_A_reduced(self, dest):
        """Puts A array of reduced-order model to ``dest``."""
        parallel.barrier()
        parallel.call_from_rank_zero(self.put_array, self.A_reduced, dest)
''')], '''
import os, time, numpy as np, modred
from modred import parallel
d = parallel.bcast(os.getcwd())
def put(a, dest):
    time.sleep(.5)
    modred.save_array_text(a, dest)
h = [modred.VecHandleInMemory(np.eye(3)[i]) for i in range(3)]
p = modred.LTIGalerkinProjectionHandles(np.vdot, h, verbosity=0, put_array=put, max_vecs_per_node=30)
p.reduce_A(h)
p.put_A_reduced(os.path.join(d, 'A.txt'))
modred.load_array_text(os.path.join(d, 'A.txt'))
time.sleep(1)
''', 'a worker that reads the file before rank zero has written it', 'the reduced array is not visible to all workers', n=2)

S('V03-rmul', 'V03', [('vectorspace.py', '''                            sum_layer = basis_vec * coeff_array[
                                    basis_indices[basis_index], sum_index]
''', '''                            sum_layer = coeff_array[
                                    basis_indices[basis_index],
                                    sum_index].item() * basis_vec
''')], '''
import numpy as np, modred
class V(object):
    def __init__(self, a): self.a = a
    def __add__(self, o): return V(self.a + o.a)
    def __mul__(self, s): return V(self.a * s)
s = [modred.VecHandleInMemory()]
modred.VectorSpaceHandles(inner_product=np.vdot, verbosity=0).lin_combine(
    s, [modred.VecHandleInMemory(V(np.ones(2)))], np.array([[2.]]))
assert (s[0].get().a == 2).all()
''', 'user vectors that support multiplication from the right only', 'the combination fails')

S('E11-private', 'E11', [('util.py', '''        if not name.startswith('__') and not inspect.ismethod(value):
''', '''        if not name.startswith('_') and not inspect.ismethod(value):
''')], '''
import modred.util as u
class A(object):
    def __init__(self): self._x, self.y = 1, 2
assert u.get_data_members(A()) == {'_x': 1, 'y': 2}
''', 'an attribute whose name begins with an underscore', 'it is not listed')

S('D05-adj-chunk', 'D05', [('bpod.py', '''            for i in range(all_adjoint_first_direct.shape[0] // num_outputs)]
        last_adjoint_all_direct_list = [
''', '''            for i in range(last_adjoint_all_direct.shape[1] // num_inputs)]
        last_adjoint_all_direct_list = [
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
A, b, c = r.rand(5, 5) / 4, r.rand(5), r.rand(5)
X = [np.linalg.matrix_power(A, k).dot(b) for k in range(3)]
Y = [np.linalg.matrix_power(A.T, k).dot(c) for k in range(5)]
p = modred.BPODHandles(inner_product=np.vdot, verbosity=0)
H = lambda L: [modred.VecHandleInMemory(x) for x in L]
p.compute_decomp(H(X), H(Y))
assert np.allclose(p.Hankel_array, np.array(Y).dot(np.array(X).T))
''', 'numbers of direct and adjoint time steps that differ', 'rows of the Hankel array are missing or empty')

S('D06-bpod-sorted', 'D06', [('bpod.py', '''        build_coeffs = self.L_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        self.vec_space.lin_combine(
            mode_handles, self.adjoint_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''', '''        build_coeffs = self.L_sing_vecs.dot(np.diag(self.sing_vals ** -0.5))
        num_modes = len(util.make_iterable(mode_handles))
        if num_modes == self.sing_vals.size:
            # All of the modes
            mode_indices = None
        self.vec_space.lin_combine(
            mode_handles, self.adjoint_vec_handles, build_coeffs,
            coeff_array_col_indices=mode_indices)
''')], '''
import numpy as np, modred
r = np.random.RandomState(0)
A, b, c = r.rand(5, 5) / 4, r.rand(5), r.rand(5)
H = lambda L: [modred.VecHandleInMemory(x) for x in L]
X = H([np.linalg.matrix_power(A, k).dot(b) for k in range(3)])
Y = H([np.linalg.matrix_power(A.T, k).dot(c) for k in range(3)])
p = modred.BPODHandles(inner_product=np.vdot, verbosity=0)
p.compute_decomp(X, Y)
n = p.sing_vals.size
d, a = [modred.VecHandleInMemory() for i in range(n)], [modred.VecHandleInMemory() for i in range(n)]
o = list(range(n))[::-1]
p.compute_direct_modes(o, d); p.compute_adjoint_modes(o, a)
assert abs(np.vdot(a[0].get(), d[0].get()) - 1) < 1e-6
''', 'all of the adjoint modes in another order', 'adjoint modes come back unpermuted')
