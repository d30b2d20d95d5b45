#!/usr/bin/env python3
import json, sys
for p in sys.argv[1:]:
    d = json.load(open('evidence/%s.json' % p))
    for o in d['obligations']:
        if o.get('time', 0) > 8 or o['status'] != 'PASS': print(o['name'][:60], o['status'], o.get('time'), o.get('paths'), str(o.get('detail'))[:230])
    print([str(x)[:200] for x in d['notes'][:12]], 'validated', d['coverage']['traces_validated_against_impl'], 'wall', d['wall_s'])
