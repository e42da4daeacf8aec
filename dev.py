"""developer helper: python3 dev.py DRIVER [scenario...]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import explore
root = os.environ.get('SA_ROOT', '/repo')
t = time.time()
r = explore.run(root, sys.argv[1], os.environ.get('VERIF_TIER', 'quick'), only=set(sys.argv[2:]) or None, jobs=int(os.environ.get('JOBS', '8')),
                cap=int(os.environ.get('CAP', '0')) or None)
for n, x in r['scenarios'].items():
    s = x['stats']
    print('%-34s part=%-6d ok=%-6d pruned=%-5d undec=%-5d trunc=%d checks=%d %.1fs' % (n, s['partitions'], s['ok'], s['pruned'], s['undecided'], s['truncated'], x['checks'], x['wall']))
    for m, c in sorted(s['reasons'].items(), key=lambda kv: -kv[1])[:6]:
        print('      ', c, m[:int(os.environ.get('W', '400'))])
seen = set()
for v in r['violations']:
    k = (v['rule'], v['at'], v['scenario'])
    if k in seen:
        continue
    seen.add(k)
    print('VIOL', v['scenario'], v['rule'], '|', v['msg'][:160], '|', v['at'], '|', v['detail'][:200], 'x%d' % v['count'])
    if os.environ.get('V'):
        print('     path:', v['path'][:40]); print('     calls:', v['calls'][:8], v['driver'])
print('touched', len(r['touched']), 'wall %.1f' % (time.time() - t))
