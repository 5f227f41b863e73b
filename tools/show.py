"""tools/show.py <replay file> [field...]: readable detail of a recorded violation"""
import json
import sys
d = json.load(open(sys.argv[1], encoding='utf-8'))
print(d['property'], d['violation']['kind'], 'seed', d['seed'], 'case', d['index'])
for k, v in d['violation']['detail'].items():
    if len(sys.argv) == 2 or k in sys.argv[2:]:
        print('--', k, ':', str(v)[:2500])
