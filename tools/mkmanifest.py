#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import importlib
from run import MODULES

TECH = {
    'default': ('flow- and path-sensitive abstract interpretation of the source',
                'Decided for every path of the analysed functions in an abstract domain of symbolic values; trusts '
                'the model of the Python 2 language and of the library functions it names (engine/library.py), and '
                'treats everything else a path touches as unknown.'),
    'C06': ('crash-point ordering analysis of the file writes (effect sequences)', None),
    'C19': ('abstract interpretation, decided by cases over the finite abstraction of a total order', None),
    'C25': ('abstract interpretation of the comparison operators, decided by cases over a finite order abstraction', None),
    'C24': ('abstract interpretation, decided by cases over the finite abstraction of a component', None),
    'C20': ('abstract interpretation, decided by cases over the conditions of a match', None),
    'C32': ('abstract interpretation of one arbitrary loop iteration: loop variant and typestate rules', None),
    'C33': ('abstract interpretation of the command table: registered options against function parameters', None),
    'C42': ('ambiguity analysis of the automata of all regular expressions in the source',
            'Decides for every text: a pattern is exponential exactly if its automaton is exponentially ambiguous '
            'before a state that can fail. Patterns that are not constant are counted and not judged.'),
    'C43': ('abstract interpretation of the construction of an environment: provenance of its prefix and directories', None),
    'C44': ('abstract interpretation, decided by cases over what a module defines', None),
    'C45': ('effect analysis of every function: changes to shared objects and to the process', None),
    'C46': ('effect analysis over the call graph of the queries', None),
    'C47': ('abstract interpretation, decided by cases over prefixes and referenced libraries', None),
    'C49': ('symbolic evaluation of every path, decided by folding over what a system may report', None),
    'C48': ('abstract interpretation with failing directory creation, decided by cases over error numbers and prefixes', None),
    'C23': ('name resolution over the syntax tree and abstract interpretation of the raise sites', None),
}
NA = {
    'C29': 'The order of a solution of arbitrary depth depends on the run-time shape of the dependency graph: that '
           'the recursion of Solution/Tree/ordered lists each node after everything below it is an inductive '
           'invariant over unbounded graphs, which none of the dataflow or abstract domains here can express.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    have = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            have.update(importlib.import_module('checks.' + m).CHECKS)
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in have and i not in NA:
            t, note = TECH.get(i, TECH['default'])
            checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i,
                           'thorough_cmd': 'python3 run.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': t, 'level': 'other', 'level_note': note or TECH['default'][1]})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
