"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
S = os.path.join(os.path.dirname(__file__), '..', 'seeded')
print('| planted bug | property = check that catches it | what it breaks | needs |\n|---|---|---|---|')
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    print('| %s | %s | %s | %s |' % (i, m['property'], c(m['what_it_breaks']), c(m['needs'])))
