"""prints the table of DESIGN.md section 9 from the planted bugs"""
import json, glob, os
print('| bug | breaks | needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/../seeded/*/meta.json')):
    d = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    print('| %s | %s | %s | %s |' % (b.split('-')[0], d['what_it_breaks'], d['needs'], d['property']))
