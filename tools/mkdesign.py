#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.in, with the table of checks and of planted bugs."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ROWS = [
 ('C01', 'filings with 0-6 entities, 1-5 schemas, several annotations, name registry entries, plain or inline', 'model of the catalog', '20 000 cases, 22 s'),
 ('C02', 'catalogs with confusable titles, URIs and entities; strings near links; unrelated edits', 'link/page bijection, errors for non-links, metamorphic edits', '8 000 cases, 24 s'),
 ('C03', 'presentation networks: several roots, depth 6, shared children, ties, split links, shuffled text', 'model of the depth-first walk', '15 000 cases, 33 s'),
 ('C04', 'entities and contexts sharing periods and dimensions, facts on subsets (also on abstract concepts)', 'model of the columns of all three grid kinds', '12 000 cases, 32 s'),
 ('C05', 'facts of all kinds, nil, ids or none, several taxonomies', 'model of every cell of every grid', '10 000 cases, 36 s'),
 ('C06', 'explicit and typed (nested) dimensions in segment and scenario', 'model of heading rows and cells', '12 000 cases, 31 s'),
 ('C07', 'instants, durations around month and year ends, date-times, odd dates', 'model of the period texts, own calendar arithmetic', '9 000 cases, 43 s'),
 ('C08', 'numerals up to 30 digits, exponents, accuracies -11..11 and INF and unusable ones', 'display read back with exact rationals', '10 000 cases, 37 s'),
 ('C09', 'unit declarations over registered and unregistered units, ratios, percent items', 'model of unit texts', '12 000 cases, 42 s'),
 ('C10', 'label networks over several links and files, roles and languages', 'model of label packs of every shown concept', '7 000 cases, 46 s'),
 ('C11', 'pages with uneven labels over three grid kinds', 'invariants between page lists, label packs and cells', '8 000 cases, 40 s'),
 ('C12', 'calculation networks: nested and shared, signed and fractional weights, split links', 'model of calculation groups', '12 000 cases, 34 s'),
 ('C13', 'definition networks over all arc kinds and attributes', 'model of nodes and links', '15 000 cases, 37 s'),
 ('C14', 'line-item trees, hypercubes, dimensions, domains, defaults', 'model of groups and effective members', '15 000 cases, 33 s'),
 ('C15', 'footnote networks, shared footnotes, several links, empty links', 'model of footnotes per fact, for grids and lookups', '12 000 cases, 29 s'),
 ('C16', 'inline filings, lookups of tagged, untagged and unknown pairs', 'differential against section pages, model of absence', '8 000 cases, 49 s'),
 ('C17', 'markup trees with tables, spans, escaping styles; hostile markup', 'tag and attribute invariant, text, cells, gaps read from the generated tree', '25 000 cases, 21 s'),
 ('C18', 'documents with images, sub-paths, CDATA, comments, folders with real and fake images', 'model of the served bytes', '20 000 cases, 20 s'),
 ('C19', 'reference graphs over 2-6 schemas with cycles, globals, missing and broken files', 'reachability model, then page models on the reduced filing', '12 000 cases, 46 s'),
 ('C20', 'rich filings with ties everywhere', 'byte equality over repetitions and processes', '3 500 cases, 60 s'),
 ('C21', 'histories over folders with confusable ids and requests', 'equality with uncached and with single-request answers', '1 500 cases, 28 s'),
 ('C22', 'simultaneous requests, cold and warm', 'equality with sequential answers; race detector', '600 cases, 45 s'),
 ('C23', 'valid filings with 1-6 textual mutations of 27 kinds', 'answered, no crash, no hang, control folder intact', '8 000 cases, 85 s'),
 ('C24', 'hostile references and request paths, decoy files in the scratch directory', 'answers equal with and without decoys; model of URL to file', '12 000 cases, 25 s'),
 ('C25', 'registrations with arbitrary keys, sequential and concurrent', 'model of the registry; race detector', '12 000 cases, 19 s'),
 ('C26', 'methods, ids, links, names, contexts, known or not', 'equality with the library', '4 000 cases, 33 s'),
 ('C27', 'pairs of writings of one filing', 'equality after sorting what has no order', '2 500 cases, 52 s'),
 ('C28', 'filings and parts of them: entities, sections, labels, facts, footnotes, spare declarations', 'equality of everything the part does not concern', '4 000 cases, 53 s'),
]
table = '\n'.join('| %s | %s | %s | %s |' % r for r in ROWS)
bugs = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
seen = {}
f = os.path.join(here, 'tools', 'caught.txt')
if os.path.exists(f):
    seen = dict(l.split(None, 1) for l in open(f).read().splitlines() if l.strip())
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); b = os.path.basename(os.path.dirname(m))
    esc = lambda s: s.replace('|', '\\|')
    bugs.append('| %s | %s | %s | %s | %s |' % (b, d['property'], esc(d['what_it_breaks']), esc(d['needs']), seen.get(b, d['property']).strip()))
s = open(os.path.join(here, 'tools', 'design.md.in')).read()
open(os.path.join(here, 'DESIGN.md'), 'w').write(s.replace('%TABLE%', table).replace('%BUGS%', '\n'.join(bugs)))
