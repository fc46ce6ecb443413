import json,glob,collections
c=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    c[json.load(open(f))['property']].append(f.split('/')[-2])
s=open('/verif/DESIGN.md').read(); i=s.index('Seeds by property:')
s=s[:i]+'Seeds by property:\n\n'+''.join('* %s: %s\n'%(k,', '.join(c[k])) for k in sorted(c))
s=s.replace("| insert-dup-prefix | a duplicate is what the server words as one; four wordings |\n","""| insert-dup-prefix | a duplicate is what the server words as one; four wordings |
| upload-lowercase | digests and file names that differ only in case |
| csv-trim | tables written by other programs (no quotes but where needed, or everywhere), spaces of every script |
| digest-unreadable-leak | digests of directories and missing paths among the tree's operations |
""") if 'upload-lowercase |' not in s else s
s=s.replace("""| U13 | Reload:""","""| U14 | Handles: files held by a call (step machines of the helpers with faults at every step; nothing held on return) | the histories of U01-U04, every call's descriptors below the scratch directory counted before and after; at most 40 open files |
| U13 | Reload:""") if '| U14 |' not in s else s
s=s.replace("""`tools/refactors/r1.py COPY` rewrites most files""","""`tools/refactors/r1.py COPY` and `r2.py COPY` (another style) rewrite most files""")
s=s.replace("large, substrings with characters from outside the text.","large, substrings with characters from outside the text, a chunk's file left open after a failed write.") 
if 'mutants.py' not in s:
    s=s.replace("Seeds by property:","`tools/mutants.py` samples mechanical changes (operators, constants, conditions, dropped statements; `tools/mutate`) and runs the\nchecks of the changed file; what it reported MISSED was read one by one: changes without effect (a redundant test, a larger table),\nor gaps that were closed (a driver ended by the code under test is now a violation).\n\nSeeds by property:",1)
open('/verif/DESIGN.md','w').write(s)
