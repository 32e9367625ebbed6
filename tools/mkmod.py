import sys,re
src,scratch=sys.argv[1:3]
t=open(src).read()
req=re.findall(r'^\s*(?:require\s+)?([\w./\-]+\.[\w./\-]+)\s+(v[\w.\-+]+)',t,re.M)
print("module verifharness\n\ngo 1.23\n")
main=re.search(r'^module\s+(\S+)',t,re.M).group(1)
skip={'github.com/kpango/gache','github.com/kpango/fastime'}
rep={main:'src/repo','golang.org/x/sync':'src/golang_org_x_sync','github.com/lestrrat-go/backoff/v2':'src/github_com_lestrrat-go_backoff_v2',
 'vs':'vs','realgache':'src/github_com_kpango_gache','github.com/kpango/gache':'shims/gache','github.com/kpango/fastime':'shims/fastime'}
print("require (")
seen=set()
body=re.sub(r'replace\s*\(.*?\)','',t,flags=re.S)
for m,v in re.findall(r'^\s*(?:require\s+)?([a-z][\w./\-]*\.[\w./\-]+)\s+(v[\w.\-+]+)',body,re.M):
    if m not in seen:
        print("\t%s %s"%(m,v)); seen.add(m)
mv=re.search(r'/v(\d+)$',main)
print("\t%s v%s.0.0"%(main,mv.group(1) if mv else '0'))
print("\tvs v0.0.0\n\trealgache v0.0.0")
print(")\n\nreplace (")
for m,d in rep.items(): print("\t%s => %s/%s"%(m,scratch,d))
for blk in re.findall(r'^replace\s*\((.*?)\)',t,re.S|re.M):
    for l in blk.strip().split('\n'): print("\t"+l.strip())
for l in re.findall(r'^replace\s+([^(\s].*)$',t,re.M): print("\t"+l.strip())
print(")")
