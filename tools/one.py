import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
from sa import spec
spec.init([sys.argv[1]])
r = spec.one(('spec_' + sys.argv[2], sys.argv[2], int(os.environ.get('LIM', '60'))))
if r['diff']:
    print('DIFF', r['diff'][0][2][:300])
elif r['ret'] is False or not r['eff']:
    print('UND', r['why'])
else:
    print('EQUAL')
