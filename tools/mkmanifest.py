#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in properties.jsonl."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
ORACLE = {
 'C01': 'reference model of the catalog', 'C02': 'invariants over all links and metamorphic edits',
 'C03': 'reference model of the relationship tree', 'C04': 'reference model of the columns',
 'C05': 'reference model of the cells', 'C06': 'reference model of the dimension headings',
 'C07': 'reference model of the period texts', 'C08': 'round trip of the displayed number against exact arithmetic',
 'C09': 'reference model of the unit texts', 'C10': 'reference model of the label packs',
 'C11': 'invariants over pages and label packs', 'C12': 'reference model of the calculation groups',
 'C13': 'reference model of the definition groups', 'C14': 'reference model of dimensions and members',
 'C15': 'reference model of the footnotes', 'C16': 'differential: lookup against section pages, and reference model',
 'C17': 'invariants and reference reading of the generated markup', 'C18': 'reference model of the served document',
 'C19': 'reference model of reachability', 'C20': 'differential: repeated production in several processes',
 'C21': 'differential: request histories against single requests', 'C22': 'differential: concurrent against sequential, with race detector',
 'C23': 'mutation fuzzing with crash, hang and interference oracles', 'C24': 'reference model of references, with decoy files',
 'C25': 'reference model of the registry, sequential and concurrent', 'C26': 'differential: HTTP against library',
 'C27': 'metamorphic: equivalent writings of one filing',
 'C28': 'metamorphic: a filing with and without parts that concern others',
}
NOTE = 'generated inputs from a fixed seed against an explicit oracle; shows absence of violations only for the cases generated'
done = os.environ.get('DONE', '').split() or ids
checks = [{'property': i, 'quick_cmd': './run.sh %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh %s' % i,
           'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + ORACLE[i],
           'level': 'exploration', 'level_note': NOTE} for i in ids if i in done]
na = [{'property': i, 'reason': 'check under construction'} for i in ids if i not in done]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: everything is observed through the public packages and the HTTP router. run.sh builds the harness and its worker programs from /repo\'s working tree into a scratch directory that it removes.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
