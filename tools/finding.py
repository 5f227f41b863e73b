"""tools/finding.py fixed|known PROPERTY KIND COMMIT TEXT: append an entry to KNOWN_FINDINGS.json"""
import json
import os
import sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.json')
data = json.load(open(path, encoding='utf-8'))
if len(sys.argv) > 1:
    status, prop, kind, commit, text = sys.argv[1:]
    data['findings'].append({
        'property': prop, 'status': status, 'kind': kind, 'commit': commit,
        'what': ('fixed: property=%s %s %s' % (prop, commit, text)) if status == 'fixed' else text})
with open(path, 'w', encoding='utf-8') as f:
    f.write('{\n "findings": [\n' + ',\n'.join('  ' + json.dumps(x, ensure_ascii=False) for x in data['findings']) + '\n ]\n}\n')
