import json,glob,os
p='/verif/DESIGN.md'; s=open(p).read()
a='## Per property\n'
new='''### Contexts in which every observation is made

A property that holds "for every history" is only decided if the recorded executions contain the
histories in which careless code goes wrong. All drivers therefore share these generators:

* `vt/disturb.py`: user code that runs in the middle of a library operation (`tagify()`,
  `_repr_html_()`, a display hook) itself uses the library in one of 21 ways - renders other trees
  and documents, converts components, saves, extracts serialised dependencies, and lets operations
  fail part way. What it does is unrelated to the tree at hand, so the specification of the outer
  operation does not change: any module-level or per-object scratch state that leaks shows as a
  difference from the specified result.
* failing operations: a countdown makes the n-th call of an object's method raise. The heap
  specification has the event `fail` (an operation that raised changed nothing); C18 constructs the
  same thing after such failures; C14, C16 demand the unchanged list / tag after a rejected argument.
* observations made nested inside another rendering (C18 `@` methods) must equal those made at top level.
* `used_before` (C02-C04): strings that were met earlier in another role (as text, attribute value,
  raw text, class, HTML) - caches keyed by the string alone are wrong for one of the roles.
* near misses (`near()` in `vt/deps.py`, C18 families): pairs of values that differ in one detail which a
  careless key drops (case, trailing space, type of a number, all_files, order of items ...).
* shared objects: one object at several places of a tree, in several trees, documents, lists; results of one
  operation altered or kept while the next one runs.
* An exception that escapes a driver from inside the library is reported as the violation
  `unexpected-<Type>` of the property under check, not as a failure of the machinery.

'''
if 'Contexts in which' not in s: s=s.replace(a,new+a,1)
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((m['property'],os.path.basename(d[:-1]),m['needs']))
rows.sort()
t='## Planted bugs and the checks that catch them\n\nEach was written from the property and the code, passes the test suite, and is caught by the quick check of its\nown property (run with `tools/tryseed.sh ID`, seed 1). Bugs which a check missed when they were planted led to the\nwidened drivers described above. Besides these, about 450 further mutants of the library were run during development\n(pools of single edits per property, harmless rewrites among them, on which the checks stayed quiet).\n\n| check | planted bug | what it needs |\n|---|---|---|\n'
t+=''.join(f'| {p_} | {i} | {n.replace("|","/")} |\n' for p_,i,n in rows)+'\n'
if '## Planted bugs' in s:
    i=s.index('## Planted bugs'); j=s.index('\n## ',i+5)+1; s=s[:i]+t+s[j:]
else:
    k='## What is deliberately left open'; s=s.replace(k,t+k,1)
s=s.replace('independence after copy.copy of a document.\n','independence after copy.copy of a document; a target directory that is the source directory itself.\n')
open(p,'w').write(s)
