#!/usr/bin/env python3
# mkcommon.py: the helpers of replay/common/shared_test.go for other packages (same code, fdoshared dot-imported), plus the package's own helpers.
import os
base=open('/verif/replay/common/shared_test.go').read()
body=base.split('\n',1)[1]
for pkg,path,own in [('rv','core/rv','rv.part'),('to2','core/do/to2','to2.part')]:
    p='/verif/replay/common/'+own
    if not os.path.exists(p): continue
    extra=open(p).read()
    imps,code=extra.split('//code\n')
    t=body.replace('package fdoshared','package '+pkg,1).replace('import (\n','import (\n'+imps+'\n\t. "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"\n',1)
    t='\n'.join(l for i,l in enumerate(t.split('\n')))
    open(f'/verif/replay/common/{own[:-5]}_test.go','w').write(f'//pkg: {path}\n'+t+'\n'+code)
