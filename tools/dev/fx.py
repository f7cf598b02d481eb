import sys,subprocess
def rep(p,a,b,n=1):
    p='/repo/src/'+p; s=open(p,newline='').read()
    crlf='\r\n' in s
    if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
    if s.count(a)!=n: sys.exit("count %d in %s: %s"%(s.count(a),p,a))
    open(p,'w',newline='').write(s.replace(a,b))
def commit(m):
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+m])
