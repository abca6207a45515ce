"""C15: CSV export followed by import restores the table; import reads exactly the described table."""
import io
import itertools
import os
import shutil
import tempfile

import algebraixlib.mathobjects as mo
from algebraixlib.import_export import csv as ccsv

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C15'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'round trips (file object and path) of all tables with <= 2 rows and <= 2 columns over 18 awkward strings (separators, quotes, '
             'line breaks, blanks, non-ASCII), all awkward column names, all tables with <= 3 of 9 rows incl. missing cells and duplicates '
             'with every column order and subset; typed columns; all combinations of import options on tables with <= 3 rows in 6 text '
             'encodings; nested imports; all sequences of two (in part three) imports with column names and values that are equal in Python; '
             'every pattern of present and missing cells over <= 6 columns; sizes up to 300',
    'thorough': 'tables with <= 4 of 9 rows, three awkward columns, sizes up to 5000',
}
STR = ['x', ' ', ' x ', ',', 'a,b', '"', '""', 'a"b', '\n', 'a\nb', '\r\n', '\r', '\t', "'", 'é', '日本', '\u2028', '\ufeff', '0', 'None', ';', '\\', '#', '\x85', '\x0b', '\x1c']
_dir = [None]


def scratch():
    if _dir[0] is None or _dir[0][1] != os.getpid():
        _dir[0] = (tempfile.mkdtemp(prefix='mc-csv-'), os.getpid())
    return _dir[0][0]


class Scratch:
    """A scratch directory per case, removed afterwards."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc-csv-')
        return os.path.join(self.d, 't.csv')

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


def row(d):
    return ('s', frozenset(C(k, v) for k, v in d.items()))


def table(rows, dup):
    """rows: list of dicts -> clan or multiclan term."""
    if not dup:
        return ('s', frozenset(row(r) for r in rows))
    d = {}
    for r in rows:
        d[row(r)] = d.get(row(r), 0) + 1
    return T.MI(d)


def roundtrip(ctx, t, want, dup, path, how, types=None, prep='fresh', order=0, **kw):
    obj = drive.PREPS[prep](T.mk(t, order))
    ikw = {} if types is None else {'types': types}
    if dup:
        ikw['has_dup_rows'] = True
    buf = io.StringIO(newline='')
    ctx.step(2)
    if ccsv.export_csv(obj, buf, **kw) is not True:
        ctx.fail('{}: export of {} to a file object failed'.format(how(), T.show(t)))
    text = buf.getvalue()
    res = ccsv.import_csv(io.StringIO(text, newline=''), **ikw)
    H.check_object(ctx, res, want, lambda: '{}: round trip of {} (text {!r})'.format(how(), T.show(t), text[:500]))
    if path is not None:
        ctx.step(2)
        if ccsv.export_csv(obj, path, **kw) is not True:
            ctx.fail('{}: export of {} to a path failed'.format(how(), T.show(t)))
        with open(path, encoding='utf-8', newline='') as f:
            ftext = f.read()
        if sorted(ftext) != sorted(text):
            ctx.fail('{}: file {!r} and stream {!r} differ for {}'.format(how(), ftext[:300], text[:300], T.show(t)))
        H.check_object(ctx, ccsv.import_csv(path, **ikw), want,
                       lambda: '{}: round trip of {} through a file (text {!r})'.format(how(), T.show(t), ftext[:500]))
    H.check_object(ctx, obj, t, lambda: 'operand of the export')
    ctx.outcome(len(want[1]))
    return text


# -- awkward strings ---------------------------------------------------------------------------------
def gen_strings(tier):
    for x in STR:
        yield (('a',), ((x,),))
        yield ((x,), (('v',), ('w',)))
        if x != 'x':
            yield ((x, 'x'), (('v', 'w'), ('v', x)))
    for x, y in itertools.product(STR, STR):
        yield (('a',), ((x,), (y,)))
        yield (('a', 'b'), ((x, y),))
        yield (('a', 'b'), ((x, y), (y, x)))
        if tier != 'quick':
            for z in STR:
                yield (('a', 'b', 'c'), ((x, y, z), (z, x, y)))


def run_strings(case, ctx):
    cols, rows = case
    rows = [dict(zip(cols, r)) for r in rows]
    with Scratch() as path:
        for dup in (False, True):
            t = table(rows, dup)
            roundtrip(ctx, t, t, dup, path, lambda: 'strings')
            t2 = table(rows + rows[:1], dup)
            roundtrip(ctx, t2, t2, dup, None, lambda: 'strings, first row twice', prep='warm', order=1)
    ctx.state(case)
    ctx.trace()


# -- tables with missing cells, column orders and subsets ----------------------------------------------
ROWS = [{'a': 'x', 'b': 'y'}, {'a': 'y', 'b': 'x'}, {'a': 'x', 'b': 'x'}, {'a': 'x'}, {'b': 'x'}, {'a': 'x', 'b': 'y', 'c': 'z'}, {},
        {'c': 'x'}, {'a': 'x', 'c': 'y'}]


def gen_tables(tier):
    for k in range(0, 4 if tier == 'quick' else 5):
        for c in itertools.combinations(range(len(ROWS)), k):
            yield (c,)


def run_tables(case, ctx):
    rows = [ROWS[i] for i in case[0]]
    lefts = {frozenset(r) for r in rows}
    regular = len(lefts) <= 1
    with Scratch() as path:
        for dup in (False, True):
            mult = [r for i, r in enumerate(rows) for _ in range(1 + i % 3 if dup else 1)]
            t = table(mult, dup)
            cols = sorted({k for r in rows for k in r})
            for prep in ('fresh', 'warm', 'shallow', 'q:reg', 'q:clan', 'q:mclan'):
                if regular and cols:
                    text = roundtrip(ctx, t, t, dup, path if prep == 'fresh' else None, lambda: 'regular ' + prep, prep=prep)
                    head = text.split('\r\n')[0]
                    if head != ','.join(cols):
                        ctx.fail('header of {} is {!r}'.format(T.show(t), head))
                elif not regular:
                    buf = io.StringIO()
                    ctx.step()
                    obj = drive.PREPS[prep](T.mk(t))
                    if ccsv.export_csv(obj, buf) is not False or buf.getvalue():
                        ctx.fail('export of the irregular table {} without column order: wrote {!r}'.format(T.show(t), buf.getvalue()))
                    if prep == 'fresh':
                        if ccsv.export_csv(obj, path + '.no') is not False or os.path.exists(path + '.no'):
                            ctx.fail('export of the irregular table {} without column order created a file'.format(T.show(t)))
            # explicit columns: every order of every non-empty subset
            for n in range(1, len(cols) + 1):
                for sel in itertools.permutations(cols, n):
                    want = table([{k: r[k] for k in sel if k in r} for r in mult], dup)
                    text = roundtrip(ctx, t, want, dup, path, lambda: 'columns {}'.format(sel), ordered_lefts=list(sel), prep='warm', order=1)
                    if text.split('\r\n')[0] != ','.join(sel):
                        ctx.fail('columns {} of {}: header is {!r}'.format(sel, T.show(t), text))
                    # sorted output
                    key = lambda rel: repr(sorted((c.left.value, c.right.value) for c in rel))
                    for rev in (False, True):
                        skey = key if not rev else (lambda rel: [-ord(ch) for ch in key(rel)])
                        buf = io.StringIO(newline='')
                        ccsv.export_csv(T.mk(t), buf, ordered_lefts=list(sel), sort_key=skey)
                        lines = buf.getvalue().split('\r\n')[1:-1]
                        exp = sorted(mult, key=lambda r: repr(sorted(r.items())) if not rev else [-ord(ch) for ch in repr(sorted(r.items()))])
                        exp = [','.join(r.get(k, '') for k in sel) or '""' for r in exp]
                        ctx.step()
                        if lines != exp:
                            ctx.fail('sorted export of {}: lines {}, expected {}'.format(T.show(t), lines, exp))
            ctx.state((case, dup))
    ctx.trace()


# -- every pattern of present and missing cells -----------------------------------------------------------
def gen_masks(tier):
    for n in (3, 4, 5, 6) if tier == 'quick' else range(3, 9):
        for m in range(2 ** n):
            yield (n, m)
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for c in itertools.combinations(range(2 ** n), 2):
            yield (n,) + c
    for n in (10, 26, 27, 64, 100):
        for k in (0, 1, n // 2, n - 2, n - 1):
            yield (n, 2 ** n - 1 - 2 ** k)
            yield (n, 2 ** k, 2 ** n - 1)


def run_masks(case, ctx):
    n, masks = case[0], case[1:]
    cols = ['c{}'.format((i * 7 + 3) % n if n % 7 else i) for i in range(n)]
    rows = [{c: 'v{}{}'.format(j, i) for i, c in enumerate(cols) if m >> i & 1} for j, m in enumerate(masks)]
    with Scratch() as path:
        for dup in (False, True):
            t = table(rows + rows[:1], dup)
            for k, sel in enumerate((cols, cols[::-1], sorted(cols), cols[1:], cols[::2])):
                want = table([{c: r[c] for c in sel if c in r} for r in rows + rows[:1]], dup)
                roundtrip(ctx, t, want, dup, path if k < 2 else None, lambda: 'columns {}'.format(sel), prep=('fresh', 'warm')[k % 2],
                          ordered_lefts=list(sel))
    ctx.state(case)
    ctx.trace()


# -- typed columns -------------------------------------------------------------------------------------
TYPED = [(int, [0, 1, -1, 10 ** 20, 7]), (float, [0.0, 1.5, -2.25, 1e300, 5e-324, float('inf')]), (str, ['1', 'True', '1.0']),
         (lambda s: s == 'True', [True, False])]


def gen_types(tier):
    for i, j in itertools.product(range(len(TYPED)), repeat=2):
        for x, y in itertools.product(range(len(TYPED[i][1])), range(len(TYPED[j][1]))):
            yield (i, x, j, y)


def run_types(case, ctx):
    i, x, j, y = case
    (f, vf), (g, vg) = TYPED[i], TYPED[j]
    rows = [{'a': vf[x], 'b': vg[y]}, {'a': vf[(x + 1) % len(vf)], 'b': vg[y]}]
    for dup in (False, True):
        t = table(rows + (rows[:1] if dup else []), dup)
        roundtrip(ctx, t, t, dup, None, lambda: 'typed', types={'a': f, 'b': g})
        strs = table([{'a': str(r['a']), 'b': str(r['b'])} for r in rows + (rows[:1] if dup else [])], dup)
        roundtrip(ctx, t, strs, dup, None, lambda: 'untyped')
        mixed = table([{'a': f(str(r['a'])), 'b': str(r['b'])} for r in rows + (rows[:1] if dup else [])], dup)
        roundtrip(ctx, t, mixed, dup, None, lambda: 'half typed', types={'a': f, 'zz': int})
    ctx.state(case)
    ctx.trace()


# -- import options on hand-made text ----------------------------------------------------------------------
def enc(cell, style):
    if style == 'all' or any(ch in cell for ch in ',"\r\n'):
        return '"' + cell.replace('"', '""') + '"'
    return cell


CELLS = ['x', '', '7', 'a,"b', 'l1\nl2']
PREAMBLE = ['preamble "0', '"never closed', '', 'one, "two', 'a,b', '"a","b"', '# "x""', '"']
TEXTS = [('min', '\n', True), ('min', '\r\n', True), ('all', '\n', True), ('all', '\r\n', False), ('min', '\n', False), ('min', '\r\n', False)]


def gen_options(tier):
    rows2 = list(itertools.product(range(len(CELLS)), repeat=2))
    reps = [r for r in rows2 if tier != 'quick' or r in ((0, 2), (2, 2), (1, 0), (3, 4), (0, 1), (2, 0), (1, 1))]
    for n in range(0, 3 if tier == 'quick' else 4):
        for rows in itertools.product(reps if n > 1 else rows2, repeat=n):
            yield (rows,)
    for r in reps:
        for q in reps[:3]:
            yield ((r, q, r),)


def run_options(case, ctx):
    rows = [(CELLS[i], CELLS[j]) for i, j in case[0]]
    for k, (style, nl, final) in enumerate(TEXTS):
        for skip, columns, index, dup, types in itertools.product((0, 1, 2), (None, ['a', 'b'], ['b', 'é']), (None, 'ix'),
                                                                  (False, True), (None, {'a': len, 'b': str.upper})):
            if index is not None and dup:
                continue
            head = ['a', 'b'] if columns is None else columns
            lines = [PREAMBLE[(k + i + len(rows)) % len(PREAMBLE)] for i in range(skip)]
            if columns is None:
                lines.append(','.join(enc(h, style) for h in head))
            lines += [','.join(enc(c, style) for c in r) for r in rows]
            text = nl.join(lines) + (nl if final and lines else '')
            exp = []
            for i, r in enumerate(rows):
                d = {h: c for h, c in zip(head, r) if c != ''}
                for col, fn in (types or {}).items():
                    if col in d:
                        d[col] = fn(d[col])
                if index is not None:
                    d[index] = i
                exp.append(d)
            want = table(exp, dup)
            kw = {}
            if skip:
                kw['skip_rows'] = skip
            if columns:
                kw['columns'] = columns
            if index:
                kw['index_column'] = index
            if dup:
                kw['has_dup_rows'] = True
            if types:
                kw['types'] = types
            ctx.step()
            res = ccsv.import_csv(io.StringIO(text, newline=''), **kw)
            H.check_object(ctx, res, want, lambda: 'import of {!r} with {}'.format(text, kw))
    with Scratch() as path:
        text = 'a,b\n' + ''.join(','.join(enc(c, 'min') for c in r) + '\n' for r in rows)
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        for dup in (False, True):
            ctx.step()
            H.check_object(ctx, ccsv.import_csv(path, has_dup_rows=dup), table([{h: c for h, c in zip('ab', r) if c} for r in rows], dup),
                           lambda: 'import of the file {!r}'.format(text))
        # one import runs while another one is in progress
        for dup in (False, True):
            inner = []

            def conv(s):
                inner.append(ccsv.import_csv(io.StringIO('b,a\n{},q\n'.format(enc(s, 'min')), newline='')))
                return s
            res = ccsv.import_csv(io.StringIO(text, newline=''), types={'a': conv}, has_dup_rows=dup)
            ctx.step()
            H.check_object(ctx, res, table([{h: c for h, c in zip('ab', r) if c} for r in rows], dup),
                           lambda: 'import of {!r} with another import in progress'.format(text))
            want_inner = [table([{'b': r[0], 'a': 'q'}], False) for r in rows if r[0]]
            for o, w in zip(inner, want_inner):
                H.check_object(ctx, o, w, lambda: 'import inside the import of {!r}'.format(text))
            if len(inner) != len(want_inner):
                ctx.fail('the conversion ran {} times for {!r}'.format(len(inner), text))
    ctx.state(case)
    ctx.trace()


# -- successive imports: nothing is carried over from one to the next -----------------------------------------
NAMES = [1, True, 1.0, '1', 0, False, 'a', None, (1,), (True,)]
CONV = [None, int, float, bool, lambda s: 1, lambda s: True, lambda s: 1.0, lambda s: (1,), lambda s: (True,)]


def gen_successive(tier):
    n = len(NAMES)
    for i, j in itertools.product(range(n), repeat=2):
        yield ('name', i, j)
        for k in range(n) if tier != 'quick' else (0, 1, 3):
            yield ('name', i, j, k)
    for i, j in itertools.product(range(len(CONV)), repeat=2):
        yield ('conv', i, j)
        yield ('cols', i, j)
    for i, j in itertools.product(range(n), repeat=2):
        yield ('nested', i, j)
    for i, j in itertools.product(range(len(CONV)), repeat=2):
        if tier != 'quick':
            for k in range(len(CONV)):
                yield ('conv', i, j, k)


def run_nested(case, ctx):
    # one import runs while another one is in progress
    outer, inner = NAMES[case[1]], NAMES[case[2]]
    for dup, rows in itertools.product((False, True), (1, 2, 3)):
        got = []

        def conv(s):
            got.append(ccsv.import_csv(io.StringIO('{},i\n'.format(s)), columns=[inner, 'z'], has_dup_rows=dup))
            return s
        vals = ['v{}'.format(i) for i in range(rows)]
        text = ''.join('u,{}\n'.format(v) for v in vals)
        ctx.step(1 + rows)
        res = ccsv.import_csv(io.StringIO(text), columns=[outer, 'y'], types={'y': conv}, has_dup_rows=dup)
        H.check_object(ctx, res, table([{outer: 'u', 'y': v} for v in vals], dup),
                       lambda: 'import with column {!r} during which others with column {!r} ran'.format(outer, inner))
        for v, o in zip(vals, got):
            H.check_object(ctx, o, table([{inner: v, 'z': 'i'}], dup), lambda: 'import with column {!r} inside of one with {!r}'.format(inner, outer))
        if len(got) != rows:
            ctx.fail('the conversion ran {} times for {} rows'.format(len(got), rows))
    ctx.state(case)
    ctx.trace()


def run_successive(case, ctx):
    what, seq = case[0], case[1:]
    if what == 'nested':
        return run_nested(case, ctx)
    for dup, index, header in itertools.product((False, True), (None, 1, True), (False, True)):
        if index is not None and dup:
            continue
        if what == 'cols':
            # both conversions in one import, and both values in one row
            f, g = CONV[seq[0]], CONV[seq[1]]
            types = {k: v for k, v in (('a', f), ('b', g)) if v}
            want = {'a': f('1') if f else '1', 'b': g('1') if g else '1'}
            if index is not None:
                want[index] = 0
            kw = {'types': types}
            plan = [('a,b\n1,1\n', kw, want)]
        else:
            plan = []
            for i in seq:
                if what == 'name':
                    kw, want = {'columns': [NAMES[i], 'z']}, {NAMES[i]: '1', 'z': 'v'}
                    if header and not isinstance(NAMES[i], str):
                        continue
                    text = '1,v\n'
                    if header:
                        kw, text = {}, '{},z\n1,v\n'.format(NAMES[i])
                else:
                    f = CONV[i]
                    kw, want = {'types': {'a': f} if f else None}, {'a': f('1') if f else '1', 'z': 'v'}
                    text = 'a,z\n1,v\n'
                if index is not None:
                    if index in want:
                        continue
                    want[index] = 0
                plan.append((text, kw, want))
        for text, kw, want in plan:
            kw = dict(kw, has_dup_rows=dup)
            if index is not None:
                kw['index_column'] = index
            t = table([want], dup)
            ctx.step()
            res = ccsv.import_csv(io.StringIO(text, newline=''), **kw)
            H.check_object(ctx, res, t, lambda: 'import of {!r} with {} after {}'.format(text, kw, plan))
    ctx.state(case)
    ctx.trace()


# -- column names that are not strings, of one or several types ----------------------------------------------
def gen_names(tier):
    names = [1, 2, True, 'a', 'b', '', 1.5, (1, 'x'), b'b', -1]
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for c in itertools.combinations(names, k):
            if len({str(x) for x in c}) == k and len(set(c)) == k:
                yield ('names',) + c
    for n in range(0, 4):
        for skip in range(0, 7):
            yield ('skip', n, skip)


def run_names(case, ctx):
    if case[0] == 'skip':
        n, skip = case[1:]
        lines = ['a,b'] + ['{},y'.format(i) for i in range(n)]
        rest = lines[skip:]
        for dup in (False, True):
            for columns in (None, ['p', 'q']):
                data, head = (rest, columns) if columns else (rest[1:], rest[0].split(',') if rest else [])
                want = table([dict(zip(head, ln.split(','))) for ln in data], dup)
                for final in ('', '\n'):
                    text = '\n'.join(lines) + final
                    ctx.step()
                    res = ccsv.import_csv(io.StringIO(text), skip_rows=skip, has_dup_rows=dup, columns=columns)
                    H.check_object(ctx, res, want, lambda: 'import of {!r} skipping {} lines'.format(text, skip))
        ctx.trace()
        return
    cols = case[1:]
    rows = [{c: 'v{}{}'.format(i, j) for i, c in enumerate(cols)} for j in range(2)]
    for dup in (False, True):
        t = table(rows + rows[:1], dup)
        want = table([{str(k): v for k, v in r.items()} for r in rows + rows[:1]], dup)
        for prep in ('fresh', 'warm'):
            roundtrip(ctx, t, want, dup, None, lambda: 'columns {!r}'.format(cols), prep=prep)
            for sel in itertools.permutations(cols):
                text = roundtrip(ctx, t, want, dup, None, lambda: 'columns {!r}'.format(sel), prep=prep, ordered_lefts=list(sel))
                if text.split('\r\n')[0] != ','.join(map(str, sel)) and '' not in sel and len(sel) > 1 and not any(isinstance(x, (tuple, bytes)) for x in sel):
                    ctx.fail('columns {!r}: header {!r}'.format(sel, text))
    ctx.state(case)
    ctx.trace()


# -- what cannot be exported -------------------------------------------------------------------------------
def gen_unsupported(tier):
    for t in U.structured():
        if not (T.abs_clan(t) or T.abs_mclan(t)):
            yield (t,)


def run_unsupported(case, ctx):
    t, = case
    with Scratch() as path:
        for prep in ('fresh', 'warm'):
            for kw in ({}, {'ordered_lefts': ['a', 'b']}, {'sort_key': repr}):
                buf = io.StringIO()
                ctx.step()
                obj = drive.PREPS[prep](T.mk(t))
                if ccsv.export_csv(obj, buf, **kw) is not False or buf.getvalue():
                    ctx.fail('export of {} {}: wrote {!r}'.format(T.show(t), kw, buf.getvalue()))
                if ccsv.export_csv(obj, path, **kw) is not False or os.path.exists(path):
                    ctx.fail('export of {} {} created a file'.format(T.show(t), kw))
    ctx.state(t)
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES[1:] + (U.SIZES_XL if tier != 'quick' else [1000]):
        for cols in (1, 3):
            yield (n, cols)
    for cols in (10, 50, 100, 257):
        yield (2, cols)


def run_scaled(case, ctx):
    n, cols = case
    rows = [{'c{}'.format(j): str(i if j == 0 else (i * j) % 5) for j in range(cols)} for i in range(n)]
    with Scratch() as path:
        for dup in (False, True):
            t = table(rows + (rows[::2] if dup else []), dup)
            roundtrip(ctx, t, t, dup, path, lambda: 'n={}'.format(n))
            typed = table([{k: int(v) for k, v in r.items()} for r in rows + (rows[::2] if dup else [])], dup)
            roundtrip(ctx, typed, typed, dup, path, lambda: 'n={}, int'.format(n), types={'c{}'.format(j): int for j in range(cols)}, order=1)
            if n > 1:
                holes = [dict(r) for r in rows]
                del holes[n // 2]['c{}'.format(cols - 1)]
                h = table(holes, dup)
                if cols > 1 or not dup:
                    roundtrip(ctx, h, h, dup, None, lambda: 'n={}, one cell missing'.format(n), ordered_lefts=sorted(rows[0]))
                buf = io.StringIO()
                if ccsv.export_csv(T.mk(h), buf) is not False:
                    ctx.fail('irregular table with {} rows was exported'.format(n))
                kw = {'types': {'c0': int}}
                text = 'c0,c1\r\n' + ''.join('{},{}\r\n'.format(i, '' if i == n // 2 else 'v') for i in range(n))
                ctx.step()
                H.check_object(ctx, ccsv.import_csv(io.StringIO(text, newline=''), has_dup_rows=dup, **kw),
                               table([{'c0': i, 'c1': 'v'} if i != n // 2 else {'c0': i} for i in range(n)], dup),
                               lambda: 'import of {} rows with one empty cell'.format(n))
        ctx.step()
        text = 'a\n' + ''.join('v{}\n'.format(i % 3) for i in range(n))
        H.check_object(ctx, ccsv.import_csv(io.StringIO(text), index_column='i'), table([{'a': 'v{}'.format(i % 3), 'i': i} for i in range(n)], False),
                       lambda: 'import of {} rows with an index'.format(n))
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('strings', gen_strings, run_strings, block=4),
    Family('tables', gen_tables, run_tables),
    Family('cell-patterns', gen_masks, run_masks, block=4),
    Family('types', gen_types, run_types, block=8),
    Family('import-options', gen_options, run_options),
    Family('successive-imports', gen_successive, run_successive, block=4),
    Family('column-names', gen_names, run_names, block=4),
    Family('unsupported', gen_unsupported, run_unsupported),
    Family('scaled', gen_scaled, run_scaled),
]
