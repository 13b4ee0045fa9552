#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist and properties.jsonl."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'C32': 'convergence of two iterations to the same root at high power is '
    'a statement about a nonconvex numerical iteration; no static argument '
    'bounds which root a floating-point iteration reaches',
    'C33': 'the reflected power of the discretised layer is a quantitative '
    'numerical property of the solved field; the source only fixes the '
    'profile (decided by C03)',
    'C34': 'fails for legitimate step sizes; whether an ascent step improves '
    'depends on runtime curvature that no static argument bounds',
    'C35': 'which eigenvector a shift-invert iteration returns first depends '
    'on the spectrum of the runtime cross-section and on the eigensolver',
}
TECH = ('static analysis: whole-package value-flow abstract interpretation '
        '(joins, no path enumeration, no solver); ')


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(HERE, 'checks', i.lower() + '.py')
        if os.path.exists(f):
            m = importlib.import_module('checks.' + i.lower())
            checks.append(dict(
                property=i, quick_cmd='python3 check.py %s' % i,
                thorough_cmd='python3 check.py %s --thorough' % i,
                technique=TECH + m.TECHNIQUE, level='other',
                level_note=m.NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, 'no check built yet')))
    d = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='All checks read /repo/**/*.py only; nothing from the '
             'repository is imported or executed. No hooks are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
