import json,glob,os
from collections import defaultdict
D=defaultdict(list)
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    D[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
table='\n'.join('| %s | %s |' % (k, ', '.join(D[k])) for k in sorted(D))
n=sum(map(len,D.values()))
open('/verif/DESIGN.md','w').write(open('/verif/tools/design.in.md').read().replace('@TABLE@',table).replace('@N@',str(n)))
