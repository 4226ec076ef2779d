#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import json,os,sys,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sd=sys.argv[1] if len(sys.argv)>1 else root+'/seeded'
p=root+'/DESIGN.md'; s=open(p).read()
i=s.find('## Planted changes')
if i>=0: s=s[:i]
s=s.rstrip('\n')+"""

## Planted changes

Each lives in `seeded/<id>/` with patch, demonstration and description; no check reads that directory. All of those below are caught by the
quick check of the property named (exit 1 with its VIOLATION line).

Changes that were missed when first planted, and what was added:

| change | property | added |
|--------|----------|-------|
| a refiner that keeps state between lists | C04 | made-up result lists through kept and new refiners |
| the text trimmed in the caller's string | C04 | texts with blanks and padding around them |
| a range end of minute 60 | C02, C18 | ranges with an end that does not exist |
| a lazily filled shared word list | C05 | lock-step rounds with the same text in all threads |
| a rejected match that swallows what follows | C06 | phrases directly after something of the form that names no date |
| a zone on the start written to the end as well | C20 | results whose end has its own zone |
| an index that goes backwards, so that parsing never ends and memory fills | C03 | memory limit on every worker; running into it is reported |
| an uninitialised flag with the same effect in both fills | C01 | memcheck runs |
| week counts read in octal | C13 | leading zeros, also long runs of them |
| a holiday name copied into a buffer of 40 | C01 | long stretches of whitespace inside phrases |
| only the first six amounts of a sum counted | C11 | sums of up to 40 amounts |
| ordinals split with strtok | C05 | monitors on libc functions with hidden state, and a stress run that compares results |

| id | property | needs | breaks |
|----|----------|-------|--------|
"""
def c(t): return re.sub(r'\s+',' ',t).replace('|','/')
for n in sorted(os.listdir(sd)):
    m=json.load(open(f'{sd}/{n}/meta.json'))
    s+=f"| {n} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |\n"
open(p,'w').write(s)
