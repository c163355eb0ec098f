#!/usr/bin/env python3
"""Show a replay file: case.py FILE"""
import json
import sys

v = json.load(open(sys.argv[1]))
print(v['clause'], v.get('widths'), v.get('job', {}).get('opts'))
print(v.get('job', {}).get('doc'))
print('---- output')
print('\n'.join(v.get('output', [])))
print('---- again')
print('\n'.join(v.get('again', [])))
print(v.get('diff'))
