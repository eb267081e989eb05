import sys; sys.path.insert(0,sys.argv[1])
import itertools, numpy as np, warnings
warnings.simplefilter('ignore')
from stoqcompiler.unitary import Unitary, UnitarySequenceEntry
def main():
  for n in range(0,6):
    for K in range(1,5):
        for q in itertools.permutations(range(5),K):
            if n==5 and K>2: continue
            e=UnitarySequenceEntry(Unitary.identity(2**K),list(q))
            try: P=e.get_permute_matrix(2**n); 
            except Exception as ex:
                if max(q)<n: return f'refuses {n} {q} {type(ex).__name__}'
                continue
            if max(q)>=n: return f'accepts {n} {q}'
            D=2**n
            if P.shape!=(D,D): return 'shape'
            P=P.toarray()
            if not (np.all(P.sum(1)==1) and np.all(P.sum(0)==1) and np.all((P==0)|(P==1))): return f'notperm {n} {q}'
            pi=P.argmax(1)
            # digits
            bit=lambda x,m:(x>>(n-1-m))&1
            for r in range(D):
                for j,qj in enumerate(q):
                    if bit(pi[r],j)!=bit(r,qj): return f'digit {n} {q}'
            # rest: a digit permutation
            M=np.array([[bit(pi[r],m) for m in range(n)] for r in range(D)]); R=np.array([[bit(r,m) for m in range(n)] for r in range(D)])
            for m in range(n):
                if not any(np.array_equal(M[:,m],R[:,t]) for t in range(n)): return f'notdigit {n} {q}'
  return 'OK'
try: print(main())
except Exception as ex: print('crash',type(ex).__name__)
