"""Development tool: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
seeded bugs that were first missed are named in FIRST (with what was strengthened)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
    'C04-unused-terms': 'programs where an unknown name is a term of a product that is zero anyway',
    'C05-word-in-doubleword': 'bigger samples of field x value pairs, absolute and known labels separated',
    'C06-suffix-sign': 'every notation at its edges: signs, digits, prefixes and suffixes combined',
    'C09-align-in-region': 'alignments inside bounded regions whose origin is not aligned',
    'C11-empty-column': 'systematic malformed entries of data files',
    'C12-missing-blank': 'words that share a prefix or a case-folded spelling with a parameter',
    'C13-many-copies': 'repeat counts around powers of two up to 4097',
    'C13-range-of-digits': 'the same, with values that change their number of digits',
    'C14-first-of-line': 'chains of operators around define names, mnemonics included',
    'C17-name-of-prefix': 'section and symbol names that are prefixes and suffixes of each other',
    'C18-passes-of-owner': 'passes that are bound methods of other objects, partial applications and plain callables',
    'C21-one-side': 'a grid of image sizes of which one or both sides do not fill a cell',
    'C22-checksum-of-header-end': 'images with the header of a real cartridge, whose fields contradict the size',
    'C22-padding-by-address': 'images that do not start at address 0',
    'C25-ldh-upper-limit': 'all the addresses around the high page',
    'C26-lui-carry': 'labels with random 32-bit addresses; `vary`: random values in every operand position',
    'C31-delay-in-region': 'branches at the ends of the 256 MB regions',
    'C31-thumb-bl': 'long branches at their limits in both directions',
    'C32-long-statement': 'diagnostics of statements with hundreds of tokens',
}
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    p = V + '/seeded/%s/meta.json' % d
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), d in FIRST))
out = ['| planted bug | caught by | needs | what breaks |', '|---|---|---|---|']
out += ['| %s%s | %s | %s | %s |' % (i, ' *' if f else '', p, n, w) for i, p, n, w, f in rows]
out += ['', 'All %d are caught by the quick check of their property. Those marked * were first missed; what was added to the checks since:' % len(rows), '']
out += ['* %s: %s.' % (k, v) for k, v in sorted(FIRST.items())]
s = open(V + '/DESIGN.md').read()
mark = '<!-- planted bugs -->'
head = s.split(mark)[0] if mark in s else s.split('SEEDTABLE')[0]
open(V + '/DESIGN.md', 'w').write(head + mark + '\n\n' + '\n'.join(out) + '\n')
print(len(rows), 'rows')
