"""Behaviour-preserving edits of /repo on which every check has to stay quiet.

    python tools/refactors.py [names...] [-p P01,..] [-j N]
"""
import os, re, sys, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

R = {}


def sub(name, path, pat, new, k=None, flags=re.S):
    R.setdefault(name, []).append((path, pat, new, k, flags))


def lit(name, path, old, new, k=1):
    sub(name, path, re.escape(old), lambda m: new, k)


# --- communication: helper with sendrecv, builtin collectives, other clock functions
sub('comm', 'vectorspace.py',
    r'request = parallel\.comm\.isend\(\s*(\w+), dest=dest, tag=send_tag\)\s*(\w+) = parallel\.comm\.recv\(\s*'
    r'source=source, tag=recv_tag\)\s*request\.Wait\(\)',
    r'\2 = _exchange(\1, dest, source, send_tag, recv_tag)', 3)
lit('comm', 'vectorspace.py', 'def _insert_inner_product(', '''def _exchange(data, dest, source, send_tag, recv_tag):
    return parallel.comm.sendrecv(
        data, dest=dest, sendtag=send_tag, source=source, recvtag=recv_tag)


def _insert_inner_product(''')
lit('comm', 'vectorspace.py', 'IP_array = parallel.custom_comm.allreduce(IP_array)',
    'IP_array = parallel.comm.allreduce(IP_array)', 2)
lit('comm', 'vectorspace.py', 'from time import time\n', 'import time as timer\n')
sub('comm', 'vectorspace.py', r'\btime\(\)', 'timer.perf_counter()', None)
lit('comm', 'parallel.py', '        comm.Barrier()', '        comm.barrier()')
sub('comm', 'parallel.py', r'    if is_rank_zero\(\):\n        outputs = func\(\*args, \*\*kwargs\)\n.*?    return outputs\n',
    '    return bcast(call_from_rank_zero(func, *args, **kwargs))\n', 1)
lit('comm', 'reductions.py', 'mask <<= 1', 'mask = mask * 2', 3)
lit('comm', 'reductions.py', '''                tmp = self.sendrecv(partial, dest=target, source=target,
                                    sendtag=tag, recvtag=tag)
''', '''                req = self.isend(partial, dest=target, tag=tag)
                tmp = self.recv(source=target, tag=tag)
                req.wait()
''', 2)
lit('comm', 'reductions.py', '''        recvobj = self.bcast(recvobj, 0)
        return recvobj''', '''        return self.bcast(recvobj)''')

# --- parallel: assignments computed otherwise, ring in the other order of statements
lit('assign', 'parallel.py', '''            new_max_task_index = np.abs(np.cumsum(
                task_weights[first_unassigned_index:]) -\\
                work_per_worker).argmin() + first_unassigned_index
''', '''            best, total = None, 0.
            for index in range(first_unassigned_index, len(tasks)):
                total += task_weights[index]
                miss = abs(total - work_per_worker)
                if best is None or miss < best:
                    best, new_max_task_index = miss, index
''')
lit('assign', 'parallel.py', '''        work_per_worker = (1. * work_remaining) / num_remaining_workers
''', '''        work_per_worker = float(work_remaining) / num_remaining_workers
''')
sub('assign', 'vectorspace.py', r'max\(\[len\(tasks\) for tasks in (\w+)\]\)', r'max(map(len, \1))', None)
lit('assign', 'vectorspace.py', '''                    for sum_index in range(start_sum_index, end_sum_index):
                        for basis_index, basis_vec in enumerate(basis_vecs):
                            sum_layer = basis_vec * coeff_array[
                                    basis_indices[basis_index], sum_index]
                            if sum_layers[sum_index - start_sum_index] is None:
                                sum_layers[
                                    sum_index-start_sum_index] = sum_layer
                            else:
                                sum_layers[sum_index - start_sum_index] = (
                                    sum_layers[sum_index - start_sum_index] +
                                    sum_layer)
''', '''                    for sum_index in range(start_sum_index, end_sum_index):
                        k = sum_index - start_sum_index
                        for row, basis_vec in zip(basis_indices, basis_vecs):
                            sum_layer = basis_vec * coeff_array[row, sum_index]
                            if sum_layers[k] is not None:
                                sum_layer = sum_layers[k] + sum_layer
                            sum_layers[k] = sum_layer
''')
lit('assign', 'vectorspace.py', '''        if num_rows > num_cols:
            transpose = True
            tmp = row_vec_handles
            row_vec_handles = col_vec_handles
            col_vec_handles = tmp
            tmp = num_rows
            num_rows = num_cols
            num_cols = tmp
        else:
            transpose = False
''', '''        transpose = num_rows > num_cols
        if transpose:
            row_vec_handles, col_vec_handles = (
                col_vec_handles, row_vec_handles)
            num_rows, num_cols = num_cols, num_rows
''')
lit('assign', 'vectors.py', '''        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
            base_vec = VecHandle.cached_base_vec
        else:
            base_vec = self.__base_vec_handle.get()
            VecHandle.cached_base_vec_handle = self.__base_vec_handle
            VecHandle.cached_base_vec = base_vec
''', '''        base_vec = self.__base_vec_handle.get()
''')
lit('assign', 'vectors.py', '''        # The cached base vector may be the one that is overwritten
        VecHandle.cached_base_vec_handle = None
        VecHandle.cached_base_vec = None
''', '')
lit('assign', 'vectors.py', '''    cached_base_vec_handle = None
    cached_base_vec = None
''', '')

# --- arrays: other but equal linear algebra
for f in ('pod.py', 'bpod.py', 'dmd.py', 'util.py', 'vectorspace.py', 'ltigalerkinproj.py'):
    sub('arrays', f, r'\.conj\(\)\.T\b', '.T.conj()', None)
    sub('arrays', f, r'np\.dot\((\w+), (\w+)\)', r'(\1 @ \2)', None)
sub('arrays', 'dmd.py', r'np\.diag\(correlation_array_eigvals \*\* 0\.5\)', 'np.diag(np.sqrt(correlation_array_eigvals))', None)
sub('arrays', 'dmd.py', r'np\.diag\(eigvals \*\* -1\.\)', 'np.diag(1. / eigvals)', None)
lit('arrays', 'vectorspace.py', '_IP_no_weights', '_plain_product', 2)
lit('arrays', 'vectors.py', '''        for grid in reversed(self.grids):
            IP = np.trapz(IP, x=grid)
        return IP
''', '''        for axis in range(len(self.grids) - 1, -1, -1):
            steps = np.diff(self.grids[axis])
            IP = (0.5 * steps * (IP[..., 1:] + IP[..., :-1])).sum(axis=-1)
        return IP
''')
lit('arrays', 'era.py', '''    Markovs_corr[::2] = Markovs[:-1]
    Markovs_corr[1::2] = Markovs[1:]
    time_steps_corr[::2] = time_steps[:-1]
    time_steps_corr[1::2] = time_steps[1:]
''', '''    for i in range(num_time_steps - 1):
        for j in (0, 1):
            time_steps_corr[2 * i + j] = time_steps[i + j]
            Markovs_corr[2 * i + j] = Markovs[i + j]
''')


def apply(name, copy):
    for path, pat, new, k, fl in R[name]:
        p = os.path.join(copy, 'modred', path)
        t = open(p).read()
        t, n = re.subn(pat, new, t, flags=fl)
        if (k is not None and n != k):
            raise SystemExit('%s %s: %r found %d times' % (name, path, pat[:60], n))
        open(p, 'w').write(t)


def run(w, p, tier='quick'):
    v = tempfile.mkdtemp(dir=w)
    subprocess.check_call('git -C %s ls-files -z -co --exclude-standard | grep -zv ^seeded/ | xargs -0 cp --parents -t %s'
                          % (VERIF, v), shell=True, cwd=VERIF)
    t = time.time()
    r = subprocess.run(['/opt/venv/bin/python', 'run.py', p, tier], cwd=v, text=True,
                       env=dict(os.environ, MODRED_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(v)
    return '%s rc=%d %4.0f s %s' % (p, r.returncode, time.time() - t, 'quiet' if r.returncode == 0 else
                                    'ALARM ' + r.stdout[-1500:])


def main():
    args = sys.argv[1:]

    def opt(o, d):
        if o in args:
            i = args.index(o)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return d
    j = int(opt('-j', 2))
    props = opt('-p', '')
    sys.path.insert(0, VERIF)
    props = props.split(',') if props else [f[:-3] for f in sorted(os.listdir(VERIF + '/checks')) if re.match(r'[A-Z]\d\d\.py', f)]
    for name in args or R:
        w = tempfile.mkdtemp(prefix='rf_', dir='/tmp')
        try:
            subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
            apply(name, w + '/repo')
            with ThreadPoolExecutor(j) as ex:
                for f in [ex.submit(run, w, p) for p in props]:
                    print(name, f.result(), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    main()
