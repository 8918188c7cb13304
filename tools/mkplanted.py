#!/usr/bin/env python3
"""Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what a first run of the check did not catch, and what was added to it then
MISSED = {
 'c02-check-positive': 'predicates that return numbers other than 0 and 1',
 'c02-foreach-stop': 'forEach callbacks that return something, plain functions, std::function',
 'c03-filterall-int': 'predicates that return numbers other than 0 and 1',
 'c03-find-int': 'predicates that return numbers other than 0 and 1',
 'c03-find-index': 'predicates by index next to equal items',
 'c04-unzip-wide': 'items of up to 1000 components',
 'c05-cores-byte': 'up to 131072 cores',
 'c06-empty-result': 'functions that return empty and invalid Series',
 'c08-singular-scale': 'singular matrices of every scale',
 'c10-add-variadic': 'up to 70 arguments',
 'c10-wsum-many': 'up to 70 Series',
 'c11-cross-parallel': 'nearly parallel vectors',
 'c11-norm-array': 'vectors of up to 520 components',
 'c11-normalize-first': 'vectors of nearly unit length',
 'c11-normalize-neg': 'all-negative scalar Series',
 'c13-base16': 'more than 65536 values',
 'c13-iqr-mult': 'large multiples of the interquartile range',
 'c16-case': 'names that differ in case, length or a zero byte only',
 'c17-empty-valid': 'decomposers that answer with no items',
 'c17-order': 'providers of other counts than the Dataframe',
 'c21-unit': 'lines of sight of nearly unit length',
 'c22-self-mult': 'a vector as its own operand',
 'c22-trace-sym': 'matrices with NaN, infinities and negative zeros',
 'c23-all-first': 'lists compared neighbour by neighbour',
 'c23-mask-scalar': 'masks of large counts and single differences',
 'c24-compose-order': 'stages that do not commute, three and more',
 'c26-swallow': 'the result after a failure that was not reported',
 'c28-series-sep': 'up to 300 Series in a list',
 'c29-float': 'gap test, Kolmogorov-Smirnov',
 'c30-address-cache': 'arguments changed in place between two calls',
 'c03-find-copy': 'runs of equal items in every generated Serie',
 'c07-warn-once': 'refused calls run by several threads at once',
 'c25-uninit': 'wide items under memcheck, every number returned is used',
 'c13-rest-small': 'quantiles just beside a value',
 'c18-hundred': 'up to 1001 components by name',
 'c10-sub-self': 'the same Serie object as several arguments',
 'c10-add-self': 'the same Serie object as several arguments',
 'c01-clear-first': 'the own array of a Serie as its new values',
 'c02-nested': 'callbacks which call the same operation with the same type of callback',
 'c02-reduce-last': 'empty accumulators',
 'c06-limit': 'up to 70000 distinct inputs',
 'c06-nested-clear': 'recursive memoized functions, cleared in the middle',
 'c08-inv-nearsym': 'matrices that are nearly symmetric, diagonal, singular, integral, orthogonal',
 'c10-div-integer': 'values at the ends of the range of double',
 'c11-normalize-near': 'vectors of length 1e-139 and 1e145',
 'c12-cov-moments': 'values far from zero, a tolerance relative to the deviations',
 'c19-far': 'meshes 2^40 units away',
 'c30-invert-input': 'zeros of both signs',
 'c30-bins-static': 'repeats after other calls with other sizes',
}
MISSED.update(json.load(open(here + '/tools/missed.json')) if os.path.exists(here + '/tools/missed.json') else {})
rows = {}
for d in sorted(os.listdir(here + '/seeded')):
    p = f'{here}/seeded/{d}/meta.json'
    if os.path.exists(p):
        m = json.load(open(p)); rows.setdefault(m['property'], []).append((d, m))
n = sum(map(len, rows.values()))
out = [f'''## Planted bugs

`seeded/` holds {n} changes, each of which builds, passes the 35 tests, breaks one property and
comes with a demonstration. Each was written from the text of the property and the
code. All are caught by the quick check of their property on seed 1; those in *italics* were
missed by the check as it then was, which was extended as said below.

| | caught by the quick check of the property |
|---|---|''']
for c in sorted(rows):
    out.append(f'| {c} | ' + ', '.join(('*%s*' if d in MISSED else '%s') % d.split('-', 1)[1] for d, m in rows[c]) + ' |')
out.append('\nExtended after a miss:\n')
have = {d for v in rows.values() for d, m in v}
out += [f'* {d}: {w}' for d, w in sorted(MISSED.items()) if d in have]
t = open(here + '/DESIGN.md').read()
s = '\n'.join(out) + '\n'
if '## Planted bugs' in t:
    t = re.sub(r'## Planted bugs\n.*?(?=\n## |\Z)', lambda m: s, t, flags=re.S)
else:
    t = t.rstrip('\n') + '\n\n' + s
open(here + '/DESIGN.md', 'w').write(t)
print(n, 'planted', len([d for d in MISSED if d in have]), 'first missed')
