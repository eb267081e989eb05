# Behaviour-preserving rewrites of get_permute_matrix through the array back end and exhaustive execution.
import os; HERE = os.path.dirname(os.path.abspath(__file__))
import subprocess, shutil, sys, os
SRC=open('/repo/stoqcompiler/unitary/unitary_sequence_entry.py').read()
R={}
def r(name,*pairs):
    s=SRC
    for a,b in pairs:
        assert a in s,(name,a); s=s.replace(a,b,1)
    R[name]=s
LOOP='''        permute_order = [None] * num_system_qubits
        next_index = 0
        for apply in self.get_apply_to():
            permute_order[apply] = next_index
            next_index += 1
        for i in range(len(permute_order)):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
'''
r('noassert',('''            assert np.all(np.sort(order) == np.arange(len(dims))), \\
                'Requested permutation does not match tensor structure.'
''',''))
r('enumerate',(LOOP,'''        permute_order = [None] * num_system_qubits
        for k, apply in enumerate(self.get_apply_to()):
            permute_order[apply] = k
        next_index = len(self.get_apply_to())
        for i, p in enumerate(permute_order):
            if p is None:
                permute_order[i] = next_index
                next_index += 1
'''))
r('sentinel',(LOOP,'''        permute_order = np.full(num_system_qubits, -1)
        next_index = 0
        for apply in self.get_apply_to():
            permute_order[apply] = next_index
            next_index += 1
        for i in range(num_system_qubits):
            if permute_order[i] < 0:
                permute_order[i] = next_index
                next_index += 1
'''))
r('helper',(LOOP,'''        permute_order = self._permute_order(num_system_qubits)
'''),('''    def get_full_unitary(
''','''    def _permute_order(self, n):
        permute_order = [None] * n
        next_index = 0
        for apply in self.get_apply_to():
            permute_order[apply] = next_index
            next_index += 1
        for i in range(n):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
        return permute_order

    def get_full_unitary(
'''))
r('shift',('''                ilist[:, sel[k]] = np.remainder(
                    np.fix(counter / np.prod(dims[sel[k + 1:]])),
                    dims[sel[k]]) + 1
''','''                ilist[:, sel[k]] = (counter >> (len(sel) - 1 - k)) % 2 + 1
'''))
r('floordiv',('''                ilist[:, sel[k]] = np.remainder(
                    np.fix(counter / np.prod(dims[sel[k + 1:]])),
                    dims[sel[k]]) + 1
''','''                ilist[:, sel[k]] = counter // np.prod(dims[sel[k + 1:]]) % dims[sel[k]] + 1
'''))
r('nofliplr',('''            irev = np.fliplr(sel) - 1
            fact = np.append(np.array([1]), np.cumprod(np.flipud(dims)[:-1]))
            fact = fact.reshape(len(fact), 1)
            perm_inds = np.dot(irev, fact)
''','''            irev = sel[:, ::-1] - 1
            fact = np.append([1], np.cumprod(dims[::-1][:-1]))
            perm_inds = irev @ fact.reshape(-1, 1)
'''))
r('weights',('''            irev = np.fliplr(sel) - 1
            fact = np.append(np.array([1]), np.cumprod(np.flipud(dims)[:-1]))
            fact = fact.reshape(len(fact), 1)
            perm_inds = np.dot(irev, fact)
''','''            weights = 2 ** np.arange(len(dims))[::-1]
            perm_inds = ((sel - 1) @ weights).reshape(-1, 1)
'''))
r('sumaxis',('''            irev = np.fliplr(sel) - 1
            fact = np.append(np.array([1]), np.cumprod(np.flipud(dims)[:-1]))
            fact = fact.reshape(len(fact), 1)
            perm_inds = np.dot(irev, fact)
            return perm_inds
''','''            irev = np.fliplr(sel) - 1
            fact = np.append(np.array([1]), np.cumprod(np.flipud(dims)[:-1]))
            return (irev * fact).sum(axis=1)
'''),('np.array(permute_indices.T)[0]','permute_indices'))
r('csr',('''        permute_matrix = scipy.sparse.coo_matrix(
            (data, (rows, np.array(permute_indices.T)[0])),
            shape=(system_dimension, system_dimension), dtype=int).tocsr()

        return permute_matrix''','''        cols = permute_indices.ravel()
        shape = (system_dimension, system_dimension)
        return scipy.sparse.csr_matrix((data, (rows, cols)), shape=shape)'''))
r('bitlen',('int(np.log2(system_dimension))','system_dimension.bit_length() - 1'))
r('reorder',('''        data = np.ones(system_dimension, dtype=int)
        rows = np.arange(system_dimension, dtype=int)
''','''        rows = np.arange(system_dimension, dtype=int)
        data = np.ones_like(rows)
'''))
r('ifraise',('''        assert system_dimension >= 2**(np.max(self.get_apply_to()) + 1)
''','''        if system_dimension < 2**(max(self.get_apply_to()) + 1):
            raise AssertionError('system too small')
'''))
r('filter',(LOOP,'''        listed = self.get_apply_to()
        rest = [q for q in range(num_system_qubits) if q not in listed]
        permute_order = [None] * num_system_qubits
        for k, q in enumerate(listed + rest):
            permute_order[q] = k
'''))
r('argsort',(LOOP,'''        listed = self.get_apply_to()
        rest = [q for q in range(num_system_qubits) if q not in listed]
        permute_order = np.argsort(listed + rest)
'''))
r('while',('''        for i in range(len(permute_order)):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
''','''        i = 0
        while i < len(permute_order):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
            i += 1
'''))
r('continue',('''        for i in range(len(permute_order)):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
''','''        for i in range(len(permute_order)):
            if permute_order[i] is not None:
                continue
            permute_order[i] = next_index
            next_index += 1
'''))
r('count',('''        for i in range(len(permute_order)):
            if permute_order[i] is None:
                permute_order[i] = next_index
                next_index += 1
''','''        for i, order in enumerate(permute_order):
            if order is None:
                permute_order[i], next_index = next_index, next_index + 1
'''))
r('kloop',('''            for k in range(len(sel)):
                ilist[:, sel[k]] = np.remainder(
                    np.fix(counter / np.prod(dims[sel[k + 1:]])),
                    dims[sel[k]]) + 1
''','''            for k, column in enumerate(sel):
                block = np.prod(dims[sel[k + 1:]])
                digit = np.remainder(np.fix(counter / block), dims[column])
                ilist[:, column] = digit + 1
'''))
r('iter',('''        for apply in self.get_apply_to():
            permute_order[apply] = next_index
            next_index += 1
''','''        counter = itertools.count()
        for apply in self.get_apply_to():
            permute_order[apply] = next(counter)
            next_index += 1
'''),('import numpy as np','import itertools\nimport numpy as np'))
r('dict',('''        permute_order = [None] * num_system_qubits
        next_index = 0
        for apply in self.get_apply_to():
            permute_order[apply] = next_index
            next_index += 1
''','''        position = {q: k for k, q in enumerate(self.get_apply_to())}
        permute_order = [position.get(q) for q in range(num_system_qubits)]
        next_index = len(position)
'''))
for n,s in R.items():
    d='/tmp/pm/rr'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/stoqcompiler',d+'/stoqcompiler')
    open(d+'/stoqcompiler/unitary/unitary_sequence_entry.py','w').write(s)
    v=subprocess.run(['python3-vt',''+HERE+'/ver.py',d],capture_output=True,text=True).stdout.strip()
    k=subprocess.run(['/opt/venv/bin/python',''+HERE+'/real.py',d],capture_output=True,text=True).stdout.strip()
    print(f'{n:12} {k:8} {v}',flush=True)
