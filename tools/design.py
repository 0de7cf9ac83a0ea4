#!/opt/venv/bin/python
"""Writes DESIGN.md from its parts, known_findings.json and the planted changes."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    t = open(os.path.join(HERE, 'tools/design_head.md')).read() + open(os.path.join(HERE, 'tools/design_limits.md')).read()
    t += '\n## Defects found and repaired (`fix:` commits)\n\nEach was first shown by the check of its property, on the unchanged tree, with a failing input.\n\n'
    for e in json.load(open(os.path.join(HERE, 'known_findings.json'))):
        t += '* %s\n' % e['what'].replace('fixed: property=', '')
    t += open(os.path.join(HERE, 'tools/design_tail.md')).read()
    caught = json.load(open(os.path.join(HERE, 'tools/caught.json')))
    t += '\n## Planted changes\n\nBuilt from the property texts and the code alone; `caught` names the checks run on them that report a violation (the check of the property first), at VERIF_SEED=1, quick tier.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
        t += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), ' '.join(caught.get(i, [])) or 'none')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


if __name__ == '__main__':
    main()
