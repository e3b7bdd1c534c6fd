"""How the inputs of a check combine: pairs of features of the arguments that were never recorded together
(paircov.py PROP [PARTS]; a development tool, no check uses it)."""
import json,sys,subprocess,os,collections,itertools
prop=sys.argv[1]; parts=[int(x) for x in (sys.argv[2] if len(sys.argv)>2 else '3,7').split(',')]
N=60000
def big(L):
    v=0
    for x in reversed(L[1:]): v=v*1000+x
    return v*L[0] if L and L[0]<0 else v
def yc(y): 
    return ('y1' if y==1 else 'y2-99' if y<100 else 'y100-999' if y<1000 else 'y1000-1883' if y<1884 else 'y1884-1969' if y<1970 else 'y1970-2037' if y<2038 else 'y2038-99' if y<2100 else 'y2100-9998' if y<9999 else 'y9999')
def leap(y): return 'L400' if y%400==0 else 'C100' if y%100==0 else 'L4' if y%4==0 else 'common'
def dc(y,m,d):
    return [yc(y),leap(y),'m%d'%m,'d1' if d==1 else 'd2-27' if d<28 else 'd%d'%d]
def tc(h,mi,s,n):
    return ['h0' if h==0 else 'h12' if h==12 else 'h23' if h==23 else 'hAM' if h<12 else 'hPM','mi0' if mi==0 else 'mi59' if mi==59 else 'mi30' if mi==30 else 'miX','s0' if s==0 else 's59' if s==59 else 'sX','n'+('0' if n==0 else '1' if n==1 else 'max' if n==999999999 else 'ms' if n%1000000==0 else 'us' if n%1000==0 else 'ns'), 'n<1ms' if 0<n<1000000 else 'n>999ms' if n>=999000000 else 'nmid']
def oc(o):
    a=abs(o)
    return ['o0' if o==0 else ('o-' if o<0 else 'o+')+('S' if a%60 else 'M' if a%900 else 'Q' if a%1800 else 'H30' if a%3600 else 'H'), 'o<1h' if 0<a<3600 else 'o>12h' if a>43200 else 'omid']
def sp(d,s,n):
    t=(d*86400+s)*10**9+n; a=abs(t)
    return ['0' if t==0 else ('-' if t<0 else '+')+('<1us' if a<1000 else '<1s' if a<10**9 else '<1d' if a<86400*10**9 else '<1y' if a<366*86400*10**9 else '<200y' if a<200*366*86400*10**9 else 'huge'), 'sub'+('0' if a%10**9==0 else 'us' if a%1000==0 else 'ns')]
def ic(v):
    a=abs(v); return '0' if v==0 else ('-' if v<0 else '+')+('1' if a==1 else '<=12' if a<=12 else '<=31' if a<=31 else '<400' if a<400 else '<1e5' if a<10**5 else '<1e9' if a<10**9 else '<2^53' if a<2**53 else 'huge')
def feats(v):
    t,n,z=v['t'],v['n'],v['z']
    if t in('Zoned','Offset','System'): return dc(*n[:3])+tc(*n[3:7])+oc(n[7])
    if t=='Local': return dc(*n[:3])+tc(*n[3:7])
    if t=='Date': return dc(*n)
    if t=='Time': return tc(*n)
    if t=='Instant': return ['iy%d'%(n[0]//36525),'']+tc(0,0,0,n[2])[3:]
    if t=='TD': return sp(*n)
    if t=='DD': return ['mo'+ic(n[0]),'da'+ic(n[1])]
    if t=='DTD': return ['mo'+ic(n[0]),'da'+ic(n[1])]+sp(*n[2:])
    if t=='Int': return [ic(big(n))]
    if t=='Sym': return ['sym:'+z[:30]]
    if t=='KW': 
        vs=[big(x) for x in n]; return ['%s%s'%(k,ic(x)) for k,x in zip(('Y','M','W','D','h','m','s','ms','us','ns'),vs) if x]
    if t=='YearMonth': return [yc(n[0]),'m%d'%n[1]]
    if t=='MonthDay': return ['m%d'%n[0],'d1' if n[1]==1 else 'd%d'%n[1] if n[1]>27 else 'd']
    if t=='PyDT': return dc(*n[:3])+tc(*n[3:6],n[6]*1000)+['fold%d'%n[7]]+oc(n[8])+['z:'+(z if z in('naive','nooffset','fixed','other') else 'key')]
    if t=='Err': return ['err:'+z]
    if t=='Str': return ['len%d'%len(n)]
    return [t]
GRP={}; G=collections.defaultdict(lambda:[0]); S1=collections.defaultdict(collections.Counter); ops=collections.Counter(); F=collections.defaultdict(collections.Counter); T=collections.defaultdict(collections.Counter); PR=collections.defaultdict(collections.Counter)
for part in parts:
    d='/tmp/w/cov_%s_%d'%(prop,part)
    subprocess.run(['/opt/venv/bin/python',os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness/wh/chunk.py'),prop,str(part),'16',str(N),'1','quick',d],env=dict(os.environ,PYTHONHASHSEED='0',TZ='UTC',PYTHONDONTWRITEBYTECODE='1'))
    for l in open(d+'/t.ndjson'):
        e=json.loads(l)
        if 'op' not in e: continue
        op=e['op']; 
        ty=','.join(a['t'] for a in e['a'])+'->'+e['r']['t']
        ops[op]+=1; T[op][ty]+=1
        fs=set()
        for i,a in enumerate(e['a']):
            if isinstance(a.get('n'),list):
                try:
                    for gi,f in enumerate(feats(a)): fs.add('%d%s.%s'%(i,a['t'],f)); GRP['%d%s.%s'%(i,a['t'],f)]=(i,gi if a['t']!='KW' else f.rstrip('0123456789<=+-^eghu'))
                except Exception as x: fs.add('%d%s?%s'%(i,a['t'],x))
        try: fs|= {'r%s.%s'%(e['r']['t'],f) for f in feats(e['r'])}
        except Exception as x: pass
        for f in fs: F[op][f]+=1
        aa=sorted(f for f in fs if f[0]!='r' and '.len' not in f and 'iy' not in f and 'sym:' not in f)
        tk=','.join(a['t'] for a in e['a'] if a['t'] in ('Zoned','Offset','System','Local','Instant','Date','Time','TD','DD','DTD','KW','PyDT','YearMonth','MonthDay'))
        for p in itertools.combinations(aa,2): PR[op+'|'+tk][p]+=1
        G[op+'|'+tk][0]+=1
        for f in aa: S1[op+'|'+tk][f]+=1
    subprocess.run(['rm','-rf',d])
M=16/len(parts)
for op,c in ops.most_common():
    0 and print('== %s %d (quick ≈ %d)'%(op,c,c*M))
    0 and print('   types:',dict(T[op].most_common(12)))
    continue
    low=[(f,int(k*M)) for f,k in F[op].items() if k*M<(int(sys.argv[3]) if len(sys.argv)>3 else 100) and not f.startswith('r') and '.len' not in f and 'iy' not in f]
    low.sort(key=lambda x:x[1]); print('   low:',low[:40])


def kind(f):
    return f[:1]+{'y':'y','L':'leap','C':'leap','c':'leap','m':'mon','d':'d','h':'h','s':'s','n':'n','o':'o'}.get(f.split('.')[1][:1],'x') if 'mi' not in f else f[:1]+'mi'
for k in sorted(PR,key=lambda k:-G[k][0]):
    fs=S1[k]; n=G[k][0]
    if n<300: continue
    miss=[]; tot=0
    for a,b in itertools.combinations(sorted(fs),2):
        if kind(a)==kind(b) or GRP.get(a)==GRP.get(b): continue
        exp=fs[a]*fs[b]/n
        if exp<6: continue
        tot+=1
        if PR[k][(a,b)]==0: miss.append((round(exp),a,b))
    miss.sort(reverse=True)
    print('==',k,n,'pairs',tot,'holes',len(miss),miss[:8])
