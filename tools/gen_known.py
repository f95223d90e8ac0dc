"""Writes known_findings.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
F = []
def fixed(prop, commit, what):
  F.append(dict(property=prop, key=None, status='fixed', commit=commit, what=what,
                line=f'fixed: property={prop} {commit} {what}'))
def known(prop, key, what):
  F.append(dict(property=prop, key=key, status='known', what=what))
exec(open(os.path.join(root, 'tools', 'known_table.py')).read())
json.dump(dict(findings=F), open(os.path.join(root, 'known_findings.json'), 'w'), indent=1)
