# Mutants of get_permute_matrix: verdict of the array back end against exhaustive execution (n <= 5). Usage: python3-vt mut.py PART PARTS
import os; HERE = os.path.dirname(os.path.abspath(__file__))
import sys, ast, copy, itertools, os, shutil, subprocess, json, signal
sys.path.insert(0,__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','..'))
import numpy as np
SRC='/repo/stoqcompiler/unitary/unitary_sequence_entry.py'
tree=ast.parse(open(SRC).read())
fn=[n for n in ast.walk(tree) if isinstance(n,ast.FunctionDef) and n.name=='get_permute_matrix'][0]
muts=[]
def clone(): 
    t=copy.deepcopy(tree); return t,[n for n in ast.walk(t) if isinstance(n,ast.FunctionDef) and n.name=='get_permute_matrix'][0]
nodes=list(ast.walk(fn))
for ix,n in enumerate(nodes):
    def mk(f,desc):
        t,g=clone(); m=list(ast.walk(g))[ix]
        if f(m) is not False: 
            try: muts.append((desc+f' L{n.lineno}',ast.unparse(ast.fix_missing_locations(t))))
            except Exception as e: pass
    if isinstance(n,ast.Constant) and isinstance(n.value,int) and not isinstance(n.value,bool):
        for d in (1,-1): mk(lambda m,d=d: setattr(m,'value',m.value+d), f'const{n.value}{d:+}')
    if isinstance(n,(ast.BinOp,ast.AugAssign)):
        for o in (ast.Add,ast.Sub,ast.Mult,ast.Div,ast.FloorDiv,ast.Mod,ast.Pow):
            if not isinstance(n.op,o): mk(lambda m,o=o: setattr(m,'op',o()), f'op{o.__name__}')
    if isinstance(n,ast.Compare):
        for o in (ast.Eq,ast.NotEq,ast.Lt,ast.LtE,ast.Gt,ast.GtE,ast.Is,ast.IsNot):
            if not isinstance(n.ops[0],o): mk(lambda m,o=o: setattr(m,'ops',[o()]), f'cmp{o.__name__}')
    if isinstance(n,ast.Attribute) and isinstance(n.value,ast.Name) and n.value.id=='np':
        for a in ('flipud','fliplr','prod','cumprod','sort','append','fix','remainder','max','min','arange','ones'):
            if n.attr!=a: mk(lambda m,a=a: setattr(m,'attr',a), f'np.{n.attr}->{a}')
    if isinstance(n,ast.Attribute) and n.attr=='T': mk(lambda m:setattr(m,'attr','real'),'noT')
    if isinstance(n,ast.Slice):
        mk(lambda m:setattr(m,'lower',None) if m.lower is not None else False,'nolower')
        mk(lambda m:setattr(m,'upper',None) if m.upper is not None else False,'noupper')
    if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load):
        for a in sorted({x.id for x in nodes if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{'order','dims','sel','rows'}):
            if a!=n.id and n.id not in('np','scipy','int','len','range','List'): mk(lambda m,a=a:setattr(m,'id',a),f'{n.id}->{a}')
    if hasattr(n,'body') and isinstance(n.body,list):
        for k in range(len(n.body)):
            def rm(m,k=k):
                m.body[k]=ast.Pass()
            mk(rm,f'del{k}')
        for k in range(len(n.body)-1):
            def sw(m,k=k): m.body[k],m.body[k+1]=m.body[k+1],m.body[k]
            mk(sw,f'swap{k}')
    if isinstance(n,ast.Call) and len(n.args)==2: mk(lambda m:m.args.reverse(),'argswap')
    if isinstance(n,ast.Tuple) and len(n.elts)==2 and isinstance(n.ctx,ast.Load): mk(lambda m:m.elts.reverse(),'tupswap')
seen={}; 
for d,s in muts: seen.setdefault(s,d)
muts=[(d,s) for s,d in seen.items()]
if __name__=='__main__':
    part,parts=int(sys.argv[1]),int(sys.argv[2])
    d=f'/tmp/pm/r{part}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/stoqcompiler',d+'/stoqcompiler')
    out=[]
    for k,(desc,src) in enumerate(muts):
        if k%parts!=part: continue
        open(d+'/stoqcompiler/unitary/unitary_sequence_entry.py','w').write(src)
        def run(cmd):
            try: return subprocess.run(cmd,capture_output=True,text=True,timeout=100).stdout.strip()
            except subprocess.TimeoutExpired: return 'timeout'
        v=run(['python3-vt',''+HERE+'/ver.py',d]); r=run(['/opt/venv/bin/python',''+HERE+'/real.py',d])
        print(json.dumps([k,desc,v[-200:],r[-100:]]),flush=True)
