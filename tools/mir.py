"""Prints the bodies in a dump of facts (for debugging): mir.py FACTS PATTERN"""
import json, sys
f = json.load(open(sys.argv[1]))
for k, b in f['bodies'].items():
    if sys.argv[2] in k:
        print('==', k, 'argc', b['argc'], b['kind'], 'spread', b.get('spread'))
        for i, l in enumerate(b['locals']):
            print('   _%d: %s' % (i, json.dumps(l)[:160]))
        for i, bl in enumerate(b['blocks']):
            if bl:
                print(' bb%d:' % i)
                for s in bl['s']:
                    if s[0] != 'dead':
                        print('    ', json.dumps(s[:3])[:300])
                print('    ', '->', json.dumps(bl['t'])[:700])
