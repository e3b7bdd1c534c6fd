"""How the arguments (and the result) of a call relate to one another in what a check records
(relcov.py PROP [PARTS]; a development tool, no check uses it)."""
import json,sys,subprocess,os,collections,itertools,datetime
prop=sys.argv[1]; parts=[int(x) for x in (sys.argv[2] if len(sys.argv)>2 else '3').split(',')]
N=60000
DT=('Zoned','Offset','System','Local')
def loc(v):
    n=v['n']; return tuple(n[:6])
def mom(v):
    if v['t']=='Instant': return (v['n'][0]*86400+v['n'][1], v['n'][2])
    if v['t'] in('Zoned','Offset','System'):
        n=v['n']; return (datetime.date(*n[:3]).toordinal()*86400+n[3]*3600+n[4]*60+n[5]-n[7], n[6])
def rel(a,b,p):
    out=[]
    if a['t'] in DT and b['t'] in DT:
        A,B=a['n'],b['n']
        if a['t']=='Zoned'==b['t']: out.append('tz='if a['z']==b['z'] else 'tz#')
        if a['t']!='Local' and b['t']!='Local': out.append('off='if A[7]==B[7] else 'off#')
        out.append('date=' if A[:3]==B[:3] else 'date#')
        out.append('time=' if A[3:6]==B[3:6] else 'time#')
        out.append('ns=' if A[6]==B[6] else 'ns#')
        out.append('year=' if A[0]==B[0] else 'year#')
    x,y=mom(a),mom(b)
    if x and y: out.append('mom=' if x==y else 'mom<1s' if abs(x[0]-y[0])<=1 else 'mom<1h' if abs(x[0]-y[0])<=3600 else 'mom<1d' if abs(x[0]-y[0])<=86400 else 'mom<1y' if abs(x[0]-y[0])<=366*86400 else 'mom>')
    if a['t']==b['t'] and a['t'] in('Date','Time','TD','DD','DTD','YearMonth','MonthDay'):
        out.append('n%s'%''.join('=' if i==j else '#' for i,j in zip(a['n'],b['n'])))
    return out
C=collections.defaultdict(collections.Counter)
for part in parts:
    d='/tmp/w/cov3_%s_%d'%(prop,part)
    subprocess.run(['/opt/venv/bin/python',os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness/wh/chunk.py'),prop,str(part),'16',str(N),'1','quick',d],env=dict(os.environ,PYTHONHASHSEED='0',TZ='UTC',PYTHONDONTWRITEBYTECODE='1'))
    for l in open(d+'/t.ndjson'):
        e=json.loads(l)
        if 'op' not in e: continue
        aa=[a for a in e['a'] if isinstance(a,dict)]
        for i,j in itertools.combinations(range(len(aa)),2):
            try: r=rel(aa[i],aa[j],'')
            except Exception: r=[]
            if r: C['%s|%s,%s'%(e['op'],aa[i]['t'],aa[j]['t'])][' '.join(r)]+=1
        if isinstance(e['r'],dict):
          for i in range(len(aa)):
            try: r=rel(aa[i],e['r'],'')
            except Exception: r=[]
            if r: C['%s|%s -> %s'%(e['op'],aa[i]['t'],e['r']['t'])][' '.join(r)]+=1
    subprocess.run(['rm','-rf',d])
for k in sorted(C,key=lambda k:-sum(C[k].values())):
    n=sum(C[k].values()); 
    # marginal combos of pairs of relation flags
    P=collections.Counter()
    for r,c in C[k].items():
        fl=r.split()
        for a,b in itertools.combinations(fl,2): P[a,b]+=c
        if len(fl)==1: P[fl[0],'']+=c
    low=[('%s %s'%p,c) for p,c in P.items() if c<4]
    flags=collections.Counter()
    for r,c in C[k].items():
        for f in r.split(): flags[f]+=c
    print(k,n,'|',' '.join('%s:%d'%x for x in flags.most_common()),'| low',low[:8])
