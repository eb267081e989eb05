import sys; sys.path.insert(0,__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','..')); sys.setrecursionlimit(20000)
from vc.interp import World
from vc.spec import Spec
from vc.engine import Unsupported
import vc.arrays as A
bad=[]
try:
    w=World(sys.argv[1]); Spec(w)
    A.permute_matrix(w,lambda c,s,d,t,h: bad.append(c) if s!='discharged' else None,lambda k:0)
    print('PROVED' if not bad else 'undecided '+str(sorted(set(bad))))
except Unsupported as e: print('REACH',str(e)[:100])
except Exception as e: print('ERROR',type(e).__name__,str(e)[:100])
