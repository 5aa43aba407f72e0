import sys
p='/verif/bin/registry.py'; s=open(p).read()
i=s.index("\nNA = {"); s=s[:i]+open('/tmp/reg.py').read()+s[i:]; open(p,'w').write(s)
