"""Row alignment: an abstract interpretation of every function of the library and of every script in the domain of
row spaces (which rows of which table, in which order); see sa/rows.py."""
import ast
from sa import rows as R, src as S

RULE = {
    'row by row': 'arrays combined elementwise hold the same rows',
    'mask': 'a mask selects rows of the array it was computed for',
    'index': 'row numbers are used on the rows they were found in',
    'unmatched': 'the -1 of unmatched rows is selected out before it is used as a row number',
    'masked store': 'values stored through a selection describe the selected rows',
    'column': 'a column stored in a table has the rows of the table',
    'zip': 'sequences walked together hold the same rows',
    'stack': 'coordinates stacked together hold the same rows',
    'mean': 'a sum is divided by the number of rows summed',
    'interpolation': 'nodes and values of an interpolation hold the same rows',
    'fit': 'the arguments of a fit hold the same rows',
    'weights': 'a weighted mean is normalised by the sum of its own weights',
    'paired indices': 'two index arrays used together are the two sides of one match',
    'sort keys': 'the keys of one sort hold the same rows',
}


def run(c):
    c.floor = 450
    repo = S.Repo()
    r = R.Rows(repo)
    for m in sorted(repo.modules(), key=lambda m: m.name):
        jobs = [(m.name + '.' + q, lambda fn=fn: r.entry(m, fn)) for q, fn in sorted(m.funcs.items())
                if isinstance(fn.parent, (ast.Module, ast.ClassDef, ast.If))]
        if m.script:
            jobs.append((m.name, lambda: r.main(m)))
        for q, job in jobs:
            try:
                job()
            except Exception as e:       # a construct the interpreter does not know
                c.undecided('rows of ' + q, 'row space interpretation', m.rel, '%s: %s' % (type(e).__name__, e))
    for q, how in sorted(r.entries.items()):
        if how != 'complete':
            c.undecided('rows of ' + q, 'row space interpretation', '', how)
    used = {}
    for k, s in sorted(r.sites.items()):
        rel, line, col, kind = k
        nm = '%s: %s [%s]' % (s['func'] if s['func'] != '<module>' else rel, s['snippet'], kind)
        used[nm] = used.get(nm, 0) + 1
        if used[nm] > 1:
            nm += ' #%d' % used[nm]
        where = '%s:%d' % (rel, line)
        rule = RULE.get(kind, kind)
        if s['bad']:
            c.bad(nm, rule, where, kind + ': ' + s['bad'][0][:600])
        elif s['ok']:
            c.ok(nm, rule, where)
        else:
            c.undecided(nm, rule, where)
    c.functions |= set(r.functions)
    c.sites = len(r.sites)
    c.assumptions.append('array arguments of one public function hold the same rows unless the code itself matches, joins or compares them as two catalogues')
    c.assumptions.append('rows of unknown origin are never compared')
    return ('Abstract interpretation (row spaces: root catalogue, selections, sorts, deletions, appends; branches joined under their condition, '
            'loops run twice and joined, repository calls inlined) of every function and script; every place where two sets of rows meet is an obligation.')
