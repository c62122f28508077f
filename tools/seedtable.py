"""Prints the table of planted changes for DESIGN.md from the descriptions in seeded/."""
import glob
import json
import os

print('| change | breaks | needs | caught by |')
print('|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '../seeded/*/meta.json'))):
    m = json.load(open(d))
    print('| %s | %s: %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'], ', '.join(m.get('caught_by', [m['property']]))))
