import subprocess,sys,re,glob
def ren(name,props,subs):
    try:
        for f in glob.glob('/repo/ratel*/src/**/*.rs',recursive=True):
            s=open(f).read(); t=s
            for a,b in subs: t=re.sub(a,b,t)
            if t!=s: open(f,'w').write(t)
        r=subprocess.run('bash /opt/vp/build.sh',shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: print(name,'BUILD FAILS',[l for l in r.stdout.splitlines() if l.startswith('error')][:3]); return
        o=subprocess.run(['python3','/tmp/mut/viol.py']+props.split(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout
        v=[l for l in o.splitlines() if l.startswith('VIOL')]; u=[l for l in o.splitlines() if l.startswith('UNAN')]
        print('ALARM' if v else ('vac' if any('VACU' in x for x in u) else ('incon' if u else 'quiet')),name,len(v),len(u),(v+u+[o[-200:]])[0][:260],flush=True)
        for x in u[:2]: print('       ',x[:200])
    finally:
        subprocess.call('git -C /repo checkout -- .',shell=True)
PP='S01 S02 S03 S04 S05 S06 S07 E01'
if __name__=='__main__':
    for n in sys.argv[1:]:
        ren(n,PP,[(r'\b%s\b'%n, n+'_renamed')])
