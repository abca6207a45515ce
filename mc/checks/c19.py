"""C19: RDF import and result-table export carry over exactly the triples and cells."""
import datetime
import decimal
import io
import itertools
import json
import logging
import os
import shutil
import tempfile

import rdflib

import algebraixlib.mathobjects as mo
import algebraixlib.util.rdf as rdf
from algebraixlib.import_export import rdf as irdf

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S, SI

logging.disable(logging.CRITICAL)
PROPERTY = 'C19'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'import: all graphs with <= 2 of 38 triples (URIs, shared and distinct blank nodes, 15 literals of 8 types) and 190 larger ones, in N-Triples, four Turtle '
             'spellings, RDF/XML, N3, from text, bytes and paths with guessed and given formats; all pairs of '
             'consecutive imports of 8 documents; export: all tables with <= 2 of 40 rows over 3 columns and all column sets, all 26 cell values '
             'in CSV and JSON, every pattern of present and missing cells, literals with language tags among others, to files and paths; round trip import-match-export; sizes up to 500',
    'thorough': 'graphs with <= 3 of 38 triples, tables with <= 3 of 40 rows',
}
XSD = 'http://www.w3.org/2001/XMLSchema#'
U1, U2, UP, UQ = ('http://ex.org/' + x for x in ('a', 'b#c', 'p', 'q'))

# literal: (lexical form, datatype or None, Python value)
LITS = [('x', None, 'x'), ('', None, ''), ('1', None, '1'), ('a "q" \\ \n\té日', None, 'a "q" \\ \n\té日'), ('http://ex.org/a', None, 'http://ex.org/a'),
        ('1', XSD + 'integer', 1), ('2', XSD + 'integer', 2), ('-7', XSD + 'integer', -7), ('1.0', XSD + 'decimal', decimal.Decimal('1.0')),
        ('1.0e0', XSD + 'double', 1.0), ('true', XSD + 'boolean', True), ('false', XSD + 'boolean', False),
        ('2020-01-02', XSD + 'date', datetime.date(2020, 1, 2)), ('2020-01-02T03:04:05', XSD + 'dateTime', datetime.datetime(2020, 1, 2, 3, 4, 5)),
        ('?x', XSD + 'string', '?x')]


def nodes():
    return [('u', U1), ('u', U2), ('b', 'n1'), ('b', 'n2')] + [('l',) + x for x in LITS]


def triples():
    out = [(('u', U1), ('u', UP), n) for n in nodes()]
    out += [(('b', 'n1'), ('u', UP), n) for n in nodes()[:7]] + [(('b', 'n2'), ('u', UQ), n) for n in nodes()[:5]]
    out += [(('u', U2), ('u', UQ), n) for n in (nodes()[0], nodes()[2], nodes()[4], nodes()[9])] + [(('u', U1), ('u', U1), ('u', U1)), (('u', UP), ('u', UP), ('l',) + LITS[5]),
                                                                                                     (('u', U1), ('u', UQ), ('l',) + LITS[5])]
    return out


TR = triples()


def esc(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')


def nt(n, short=False):
    if n[0] == 'u':
        return ('ex:' + n[1][len('http://ex.org/'):]) if short and '#' not in n[1] else '<' + n[1] + '>'
    if n[0] == 'b':
        return '_:' + n[1]
    if n[2] is None:
        return '"' + esc(n[1]) + '"'
    if short and n[2].split('#')[1] in ('integer', 'boolean', 'decimal', 'double') and n[1] != '':
        return n[1]
    return '"' + esc(n[1]) + '"^^<' + n[2] + '>'


def doc_nt(ts):
    return ''.join('{} {} {} .\n'.format(*map(nt, t)) for t in ts)


def doc_ttl(ts):
    return '@prefix ex: <http://ex.org/> .\n# comment\n' + ''.join('{} {}\n   {} .\n'.format(*(nt(x, True) for x in t)) for t in reversed(ts))


def doc_ttl_grouped(ts):
    out = []
    for s, g in itertools.groupby(sorted(ts, key=repr), key=lambda t: t[0]):
        out.append(nt(s) + ' ' + ' ; '.join('{} {}'.format(nt(p), ' , '.join(nt(t[2]) for t in gg)) for p, gg in itertools.groupby(list(g), key=lambda t: t[1])) + ' .')
    return '\n'.join(out)


def node_rdflib(n):
    if n[0] == 'u':
        return rdflib.URIRef(n[1])
    if n[0] == 'b':
        return rdflib.BNode(n[1])
    return rdflib.Literal(n[1], datatype=n[2] and rdflib.URIRef(n[2]))


def doc_rdflib(ts, fmt):
    g = rdflib.Graph()
    for t in ts:
        g.add(tuple(node_rdflib(n) for n in t))
    r = g.serialize(format=fmt)
    return r if isinstance(r, str) else r.decode('utf-8')


SPELL = [('nt', doc_nt), ('turtle', doc_nt), ('turtle', doc_ttl), ('turtle', doc_ttl_grouped), ('n3', doc_ttl), ('nt', lambda ts: '# c\n' + doc_nt(ts + ts)),
         ('xml', lambda ts: doc_rdflib(ts, 'xml')), ('turtle', lambda ts: doc_rdflib(ts, 'turtle'))]
EXT = {'nt': '.nt', 'turtle': '.ttl', 'n3': '.n3', 'xml': '.rdf'}


def expected(ts, names):
    """names: blank node label -> atom term"""
    def term(n):
        if n[0] == 'u':
            return ('a', 'URIRef', n[1])
        if n[0] == 'b':
            return names[n[1]]
        return A(n[3])
    return SI(RP(('s', term(s)), ('p', term(p)), ('o', term(o))) for s, p, o in ts)


def norm(t):
    """URIRef values compare as plain strings."""
    if t[0] == 'a':
        return ('a', t[1], str(t[2])) if t[1] in ('URIRef', 'BNode') else t
    if t[0] == 'c':
        return ('c', norm(t[1]), norm(t[2]))
    if t[0] == 's':
        return ('s', frozenset(norm(e) for e in t[1]))
    return ('m', frozenset((norm(e), n) for e, n in t[1]))


def judge(ctx, ts, graph, how):
    """The imported graph is the expected one up to the naming of blank nodes; returns the names."""
    ctx.step()
    got = norm(T.term(graph))
    known = {U1, U2, UP, UQ}
    blanks = sorted({e[2] for r in got[1] for e in r[1] if e[2][1] in ('URIRef', 'BNode') and e[2][2] not in known}, key=repr)
    labels = sorted({n[1] for t in ts for n in t if n[0] == 'b'})
    if len(blanks) == len(labels):
        for p in itertools.permutations(blanks):
            names = dict(zip(labels, p))
            if expected(ts, names) == got:
                bad = T.unsound_flags(graph, T.term(graph))
                if bad:
                    ctx.fail('{}: {}'.format(how, bad[0]))
                if ts and not rdf.is_graph(graph):
                    ctx.fail('{}: the imported graph is not recognised as one'.format(how))
                return names
    ctx.fail('{}: imported {}, expected {}'.format(how, T.show(got), T.show(expected(ts, {l: A('_:' + l) for l in labels}))))


def gen_import(tier):
    hi = 2 if tier == 'quick' else 3
    yield ()
    for n in range(1, hi + 1):
        for i, c in enumerate(itertools.combinations(range(len(TR)), n)):
            yield c
    for i in range(0, len(TR)):
        for k in (3, 5, 8, 13, 20):
            yield tuple(sorted({(i + j * j * k + j) % len(TR) for j in range(k)}))


def run_import(case, ctx):
    ts = [TR[i] for i in case]
    d = tempfile.mkdtemp(prefix='mc-rdf-')
    try:
        few = len(case) < 2
        for k, (fmt, spell) in enumerate(SPELL):
            if not few and (k + sum(case)) % 4 and fmt != 'xml':
                continue
            if fmt == 'xml' and (any('\t' in str(n) for t in ts for n in t if n[0] == 'l') or not few and sum(case) % 3):
                continue
            doc = spell(ts)
            routes = [('text', lambda: io.StringIO(doc), fmt)]
            if few or (k + case[0]) % 2:
                routes.append(('bytes', lambda: io.BytesIO(doc.encode('utf-8')), fmt))
            if fmt == 'turtle' and spell is not doc_nt:
                routes.append(('text without format', lambda: io.StringIO(doc), None))
            if few or (k + sum(case)) % 8 == 4:
                path = os.path.join(d, 'g{}{}'.format(k, EXT[fmt]))
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(doc)
                odd = os.path.join(d, 'g{}'.format(k))
                shutil.copy(path, odd)
                routes += [('path', lambda: path, None), ('path and format', lambda: path, fmt), ('other path and format', lambda: odd, fmt)]
                if fmt == 'turtle':
                    routes.append(('path without extension', lambda: odd, None))
            for how, src, f in routes:
                s = src()
                g = irdf.import_graph(s, f) if f else irdf.import_graph(s)
                judge(ctx, ts, g, '{} by {}: {!r}'.format(fmt, how, doc))
    finally:
        shutil.rmtree(d)
    ctx.state(case)
    ctx.outcome(len(case))
    ctx.trace()


PAIRDOCS = [(), (0,), (2,), (2, 3), (19, 20, 21, 22), (21,), (26, 27, 28), (5, 9, 10, 13, 14)]


def gen_pairs(tier):
    for c in itertools.product(range(len(PAIRDOCS)), repeat=2):
        yield c


def run_pairs(case, ctx):
    """Two imports in one process: blank nodes of different documents are different, of one document the same."""
    kept = []
    for i in case + case[:1]:
        ts = [TR[j] for j in PAIRDOCS[i]]
        doc = doc_nt(ts)
        for fmt in ('nt', 'turtle'):
            g = irdf.import_graph(io.StringIO(doc), rdf_format=fmt)
            kept.append((ts, g, judge(ctx, ts, g, 'import {} in the sequence {}'.format(fmt, case)), fmt))
    for (t1, g1, n1, f1), (t2, g2, n2, f2) in itertools.combinations(kept, 2):
        shared = set(n1.values()) & set(n2.values())
        if shared:
            ctx.fail('two imports share the blank node {}'.format(shared))
    for ts, g, names, fmt in kept:
        if norm(T.term(g)) != expected(ts, names):
            ctx.fail('an earlier import changed')
    ctx.state(case)
    ctx.trace()


# -- literals with a language or with a type that Python has no value for ----------------------------------
TAGGED = [(x, t) for x in ('x', 'y', '', '1') for t in ('', '@en', '@fr', '@en-GB', '^^<http://ex.org/dt>', '^^<http://ex.org/dt2>', '^^<{}integer>'.format(XSD) if x == '1' else '@de')]


def gen_tagged(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for c in itertools.combinations(range(len(TAGGED)), n):
            yield c
    for k in range(len(TAGGED)):
        yield tuple((k + 3 * i) % len(TAGGED) for i in range(6))


def run_tagged(case, ctx):
    lits = [TAGGED[i] for i in case]
    doc = ''.join('<{}> <{}> "{}"{} .\n'.format(U1, UP, x, t) for x, t in lits)
    # a text with a language becomes a plain string, a value of an unknown type stays a literal of that type
    want = sorted({(x, 'int' if t.endswith('integer>') else t.strip('^<>') if t[:1] == '^' else '') for x, t in lits})
    for fmt in ('nt', 'turtle', 'n3'):
        ctx.step()
        g = irdf.import_graph(io.StringIO(doc), rdf_format=fmt)
        if not rdf.is_absolute_graph(g):
            ctx.fail('import of {!r} is not a graph'.format(doc))
        got = []
        for r in g:
            v = r('o').value
            if isinstance(v, rdflib.Literal):
                got.append((str(v), str(v.datatype)))
            else:
                got.append((str(v), '' if type(v) is str else type(v).__name__))
        if sorted(got) != want:
            ctx.fail('import of {!r} gives the objects {}'.format(doc, sorted(got)))
        bad = T.deep_unsound(g, T.term(g))
        if bad:
            ctx.fail('import of {!r}: {}'.format(doc, bad[0]))
    ctx.state(case)
    ctx.trace()


# -- export ---------------------------------------------------------------------------------------------
CELLS = [A('x'), A(''), A(' '), A('"'), A('a"b""'), A(','), A('a, b'), A('\n'), A('a\r\nb'), A('\\'), A('\\"'), A('é日\U0001f600'), A('\x00\x01'), A('\u2028'), A('{}'), A('null'),
         A(1), A(-5), A(10 ** 30), A(True), A(False), A(1.5), A(decimal.Decimal('1.50')), A(datetime.date(2020, 1, 2)), ('a', 'URIRef', rdflib.URIRef('http://ex.org/a?x="1"')),
         ('a', 'BNode', rdflib.BNode('n1'))]
DT = {'int': 'integer', 'bool': 'boolean', 'float': 'double', 'Decimal': 'decimal', 'date': 'date'}
COLS = ['s', 'o', 'é "q"\n, ']


def rows():
    out = [EMPTY]
    for c in COLS:
        for v in CELLS[:4] + CELLS[16:18]:
            out.append(RP((c, v)))
    for a, b in itertools.product((A('x'), A('1'), A(1), A(True)), repeat=2):
        out.append(RP(('s', a), ('o', b)))
    out += [RP(('s', 'x'), ('o', 'y'), (COLS[2], 'z')), RP(('s', 'x'), ('o', 'y'), (COLS[2], CELLS[4])), RP(('s', 1), ('other', 2)), RP(('other', 2)), RP(('s', ''), ('o', ''))]
    return U.uniq(out)


ROWS = rows()


def parse_csv(text):
    """Quoted cells separated by commas; an unquoted empty cell is missing (None)."""
    out, cells, i, n = [], [], 0, len(text)
    while i < n:
        # one cell
        while i < n and text[i] == ' ':
            i += 1
        if i < n and text[i] == '"':
            j, buf = i + 1, []
            while True:
                k = text.index('"', j)
                buf.append(text[j:k])
                if text[k + 1:k + 2] == '"':
                    buf.append('"')
                    j = k + 2
                    continue
                i = k + 1
                break
            cells.append(''.join(buf))
        else:
            cells.append(None)
        while i < n and text[i] == ' ':
            i += 1
        if i < n and text[i] == ',':
            i += 1
            if i >= n:
                cells.append(None)
            continue
        if i >= n or text[i] == '\n':
            out.append(cells)
            cells = []
            i += 1
            continue
        raise ValueError('unexpected {!r} at {}'.format(text[i], i))
    return out


def no_dups(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError('duplicate key ' + k)
        d[k] = v
    return d


def text_of(v):
    return str(v[2])


def cell_json(v):
    out = {'value': text_of(v), 'type': 'uri' if v[1] == 'URIRef' else 'bnode' if v[1] == 'BNode' else 'literal'}
    if v[1] in DT:
        out['datatype'] = XSD + DT[v[1]]
    return out


def judge_export(ctx, t, cols, fmt, text, how):
    ctx.step()
    order = sorted(cols)
    cells = [{e[1][2]: e[2] for e in r[1] if e[1][2] in cols} for r in t[1]]
    try:
        if fmt == 'csv':
            lines = parse_csv(text)
            head, body = lines[0], [tuple(l) for l in lines[1:]]
            want = [tuple(text_of(r[c]) if c in r else None for c in order) for r in cells]
        else:
            data = json.loads(text, object_pairs_hook=no_dups)
            if set(data) != {'head', 'results'} or set(data['head']) != {'vars'} or set(data['results']) != {'bindings'}:
                ctx.fail('{}: the document has the wrong parts: {!r}'.format(how, text))
            head, body = data['head']['vars'], [json.dumps(b, sort_keys=True) for b in data['results']['bindings']]
            want = [json.dumps({c: cell_json(v) for c, v in r.items()}, sort_keys=True) for r in cells]
    except (ValueError, KeyError, IndexError, TypeError) as e:
        ctx.fail('{}: the output cannot be read ({}): {!r}'.format(how, e, text))
    if head != order:
        ctx.fail('{}: header {!r}, expected {!r}'.format(how, head, order))
    if sorted(body, key=repr) != sorted(want, key=repr):
        ctx.fail('{}: rows {!r}, expected {!r}'.format(how, body, want))


def export(ctx, t, cols, prep, how, path=None):
    for fmt in ('csv', 'json'):
        obj = drive.PREPS[prep](T.mk(t))
        lefts = drive.PREPS[prep](T.mk(S(*cols)))
        outs = []
        f = io.StringIO()
        r = irdf.export_table(f, lefts, obj, fmt)
        outs.append(f.getvalue())
        if fmt == 'csv':
            f = io.StringIO()
            irdf.export_table(f, lefts, obj)
            outs.append(f.getvalue())
        if path:
            irdf.export_table(path, lefts, obj, out_format=fmt)
            with open(path, encoding='utf-8', newline='') as f:
                outs.append(f.read())
            os.remove(path)
        for text in outs:
            judge_export(ctx, t, cols, fmt, text, '{} export of {} columns {} {}'.format(fmt, T.show(t), cols, how + prep))
        H.check_object(ctx, obj, t, 'table after export')


COLSETS = [c for n in (1, 2, 3) for c in itertools.combinations(COLS, n)] + [('absent',), ('s', 'absent')]


def gen_export(tier):
    hi = 2 if tier == 'quick' else 3
    for n in range(hi + 1):
        for c in itertools.combinations(range(len(ROWS)), n):
            yield c


def run_export(case, ctx):
    t = SI(ROWS[i] for i in case)
    d = tempfile.mkdtemp(prefix='mc-rdf-')
    try:
        for k, cols in enumerate(COLSETS):
            prep = ('fresh', 'warm', 'rebuilt')[(k + sum(case)) % 3]
            export(ctx, t, cols, prep, '', os.path.join(d, 't') if (k + sum(case)) % 8 == 0 else None)
    finally:
        shutil.rmtree(d)
    ctx.state(case)
    ctx.outcome(len(case))
    ctx.trace()


def gen_masks(tier):
    for n in (3, 4, 5, 6) if tier == 'quick' else range(3, 9):
        for m in range(2 ** n):
            yield (n, m)
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for c in itertools.combinations(range(2 ** n), 2):
            yield (n,) + c
    for n in (10, 26, 27, 64):
        for k in (0, 1, n // 2, n - 2, n - 1):
            yield (n, 2 ** n - 1 - 2 ** k)
            yield (n, 2 ** k, 2 ** n - 1)


def run_masks(case, ctx):
    """Every pattern of present and missing cells."""
    n, masks = case[0], case[1:]
    cols = ['c{}'.format(i) for i in range(n)]
    t = SI(SI(C(c, 'v{}{}'.format(j, i)) for i, c in enumerate(cols) if m >> i & 1) for j, m in enumerate(masks))
    d = tempfile.mkdtemp(prefix='mc-rdf-')
    try:
        for k, sel in enumerate((cols, cols[1:], cols[::2])):
            export(ctx, t, tuple(sel), ('fresh', 'warm')[sum(masks) % 2], '', os.path.join(d, 't') if sum(masks) % 16 == 0 else None)
    finally:
        shutil.rmtree(d)
    ctx.state(case)
    ctx.trace()


def gen_cells(tier):
    for i in range(len(CELLS)):
        yield (i,)


def run_cells(case, ctx):
    v = CELLS[case[0]]
    d = tempfile.mkdtemp(prefix='mc-rdf-')
    try:
        for t in [S(RP(('c', v))), S(RP(('a', v), ('b', v), ('c', 'x'))), S(RP(('b', v)))] + [S(RP(('a', v), ('b', w)), RP(('b', w)), RP(('c', v))) for w in CELLS]:
            export(ctx, t, ('a', 'b', 'c'), 'fresh', '', os.path.join(d, 'x'))
        # every text as a column name
        if v[1] == 'str':
            for w in CELLS:
                export(ctx, S(RP((v[2], w), ('zz', 'x')), RP((v[2], w), ('zz', 1))), (v[2], 'zz'), 'fresh', '', os.path.join(d, 'x'))
    finally:
        shutil.rmtree(d)
    ctx.state(case)
    ctx.trace()


# -- import, match, export ---------------------------------------------------------------------------------
def gen_chain(tier):
    for i, c in enumerate(itertools.combinations(range(len(TR)), 2)):
        yield c


def run_chain(case, ctx):
    ts = [TR[i] for i in case if not any(n[0] == 'b' for n in TR[i])]
    if not ts:
        return
    g = irdf.import_graph(io.StringIO(doc_nt(ts)), 'nt')
    table = rdf.triple_match(g, '?s', mo.Atom(rdflib.URIRef(UP)), '?o')
    want = SI(RP(('?s', ('a', 'URIRef', rdflib.URIRef(s[1]))), ('?o', ('a', 'URIRef', rdflib.URIRef(o[1])) if o[0] == 'u' else A(o[3]))) for s, p, o in ts if p[1] == UP)
    if norm(T.term(table)) != norm(want):
        ctx.fail('match on the imported graph gives {}, expected {}'.format(table, T.show(want)))
    for fmt in ('csv', 'json'):
        if any(v[1] == 'datetime' for r in want[1] for v in [e[2] for e in r[1]]):
            continue
        f = io.StringIO()
        irdf.export_table(f, mo.Set('?s', '?o'), table, fmt)
        judge_export(ctx, want, ('?s', '?o'), fmt, f.getvalue(), 'export of a match')
    ctx.state(('chain', case))
    ctx.trace()


def gen_scaled(tier):
    for n in [10, 33, 64, 100, 129, 256, 300, 500] + ([] if tier == 'quick' else [1000, 3000]):
        yield (n,)


def run_scaled(case, ctx):
    n, = case
    ts = [(('u', U1), ('u', UP), ('l', str(i), XSD + 'integer', i)) for i in range(n)] + [(('u', U2), ('u', UQ), ('l', 'v%d' % i, None, 'v%d' % i)) for i in range(n)]
    for fmt, doc in (('nt', doc_nt), ('turtle', doc_ttl)):
        judge(ctx, ts, irdf.import_graph(io.StringIO(doc(ts)), fmt), '{} of {} triples'.format(fmt, 2 * n))
    t = SI(RP(('s', i), ('o', 'v%d' % (i % 3))) if i % 5 else RP(('s', i)) for i in range(n))
    export(ctx, t, ('s', 'o'), 'fresh', '{} rows'.format(n))
    wide = SI([SI(C('c%d' % i, i) for i in range(n))])
    export(ctx, wide, tuple('c%d' % i for i in range(n)), 'fresh', '{} columns'.format(n))
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('import', gen_import, run_import, block=4),
    Family('import-pairs', gen_pairs, run_pairs, block=4),
    Family('tagged-literals', gen_tagged, run_tagged, block=8),
    Family('export', gen_export, run_export, block=8),
    Family('cell-patterns', gen_masks, run_masks, block=4),
    Family('cells', gen_cells, run_cells),
    Family('import-match-export', gen_chain, run_chain, block=8),
    Family('scaled', gen_scaled, run_scaled),
]
