import subprocess,re,sys
class F:
    def __init__(s,p): s.p=p; s.s=open(p).read()
    def sub(s,a,b,n=1):
        assert s.s.count(a)==n,(s.s.count(a),a)
        s.s=s.s.replace(a,b); return s
    def save(s):
        open(s.p,'w').write(s.s)
def commit(msg,fmt=True):
    r=subprocess.run(['bash','-c','source /opt/vp/env.sh && git diff --name-only | xargs gofmt -l'],capture_output=True,text=True).stdout.split()
    bad=[x for x in r if x not in('netcdf/hdf5/hdf5writer.go','netcdf/hdf5/writer_utils.go')]
    assert not bad,bad
    o=subprocess.run(['bash','-c','bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 /tmp/cmp.py'],capture_output=True,text=True).stdout
    assert 'set()' in o,o
    subprocess.check_call(['bash','-c','source /opt/vp/env.sh && go build ./... && go vet ./netcdf/cdf ./internal ./netcdf/util >/dev/null && git commit -qam "$0"',msg])
