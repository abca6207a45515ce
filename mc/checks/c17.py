"""C17: importing JSON and XML documents gives exactly the relations the document describes."""
import io
import itertools
import json
import os
import shutil
import tempfile

import algebraixlib.mathobjects as mo
from algebraixlib.import_export import json as cjson, xml as cxml

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S, SI

PROPERTY = 'C17'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'JSON: all objects with <= 2 keys whose values are one of 9 scalars, 30 objects or 43 arrays of objects, all arrays of them up to '
             'length 2, nesting up to 30; XML: all elements with <= 2 children out of 60 (elements, texts, attributes; depth 3), each in 9 '
             'spellings (indentation, comments between elements, comments next to and inside of texts, CDATA, entities, self-closing, declaration), with and without number conversion; 39 spellings of numbers and blanks; the formatted text (xml_to_str) of all elements with <= 1 child and a third '
             'of those with 2, x 3 indents x 9 combinations of pre_len and post_len; sizes up to 300',
    'thorough': 'XML elements with <= 3 children, JSON arrays up to length 3',
}


# -- JSON ---------------------------------------------------------------------------------------------
SCALARS = ['x', 'é"\\', 1, True, 1.0, 0, False, '', -2.5]


def j_objects1():
    out = [{}]
    for s in SCALARS[:5]:
        out.append({'a': s})
        out.append({'b': s})
    for s, r in itertools.product(SCALARS[:4], SCALARS[:4]):
        out.append({'a': s, 'b': r})
    out += [{'a': {'a': 'x'}}, {'b': [{'a': 1}, {'a': True}]}, {'': 'x'}]
    return out


def j_values():
    o = j_objects1()
    vals = list(SCALARS) + o
    reps = [{}, {'a': 'x'}, {'a': 1}, {'a': True, 'b': 1}, {'a': {'b': 'x'}}, {'a': [{'b': 1}, {'b': 2}]}]
    vals += [[]] + [[r] for r in reps] + [[r, q] for r in reps for q in reps]
    # arrays of plain values, alone and among objects and arrays
    plain = list(SCALARS)
    vals += [[x] for x in plain] + [[x, y] for x in plain[:4] for y in plain[:4] + [{'a': 'x'}, [], [1, 'x'], [[True]]]] + \
        [[{'a': 1}, x] for x in plain[:4]] + [[[x, {'a': x}]] for x in plain[:4]] + [[1, True, 1.0, '1'], {'a': [1, 'x'], 'b': [1]}]
    return vals


def j_term(v):
    """The set of terms a node stands for."""
    value = lambda x: SI(j_term(x)) if isinstance(x, (list, dict)) else A(x)
    if isinstance(v, list):
        return {value(x) for x in v}
    return {('c', A(k), value(y)) for k, x in v.items() for y in (x if isinstance(x, list) else [x])}


def gen_json(tier):
    vals = j_values()
    for i in range(len(vals)):
        yield ('k', i, None)
    for i in range(len(vals)):
        for j in range(len(vals)) if tier != 'quick' else range(i % 3, len(vals), 3):
            yield ('k', i, j)
    objs = [v for v in vals if isinstance(v, dict)]
    for i in range(len(objs)):
        yield ('l', i, None)
        for j in range(len(objs)):
            yield ('l', i, j)
    for n in range(1, 31):
        yield ('deep', n, None)


def json_doc(case):
    kind, i, j = case
    vals = j_values()
    if kind == 'k':
        return {'p': vals[i]} if j is None else {'p': vals[i], 'q': vals[j]}
    if kind == 'l':
        objs = [v for v in vals if isinstance(v, dict)]
        return [objs[i]] if j is None else [objs[i], objs[j]]
    doc = {'v': 1}
    for k in range(i):
        doc = [{'k{}'.format(k): doc}, {'k': [doc, {'z': k}]}][k % 2] if k < 12 else {'k{}'.format(k): doc}
    return doc


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc-imp-')
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


def run_json(case, ctx):
    doc = json_doc(case)
    want = SI(j_term(doc))
    for text in (json.dumps(doc), json.dumps(doc, indent=1, ensure_ascii=False), json.dumps(doc, separators=(',', ':'), sort_keys=True)):
        ctx.step()
        H.check_object(ctx, cjson.import_json(io.StringIO(text)), want, lambda: 'import of {}'.format(text[:500]))
    if hash(str(case)) % 8 == 0 or case[2] is None:
        with Scratch() as d:
            p = os.path.join(d, 'x.json')
            with open(p, 'w', encoding='utf-8') as f:
                f.write(json.dumps(doc, ensure_ascii=False))
            for _ in range(2):
                ctx.step()
                H.check_object(ctx, cjson.import_json(p), want, lambda: 'import of the file {}'.format(text[:500]))
    ctx.state(case)
    ctx.outcome(len(want[1]))
    ctx.trace()


# -- XML ------------------------------------------------------------------------------------------------
# node: ('e', tag, attrs tuple, children tuple) or ('t', text)
def x_term(node, conv):
    _, tag, attrs, children = node
    out = {('c', A(n), A(conv(v))) for n, v in attrs}
    for ch in children:
        if ch[0] == 't':
            if ch[1].strip():
                out.add(('c', A('$'), A(conv(ch[1].strip()))))
        else:
            out.add(x_term(ch, conv))
    if len(out) == 1:
        only = next(iter(out))
        if only[1] == A('$'):
            return ('c', A(tag), only[2])
    return ('c', A(tag), SI(out))


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return s.replace('"', '&quot;').replace('\n', '&#10;') if attr else s


def lone_text(node):
    return node[0] == 't' and bool(node[1].strip())


def x_text(node, style, depth=0):
    if node[0] == 't':
        if style == 'broken' and node[1].strip():
            # one text in several pieces
            s, k = node[1], (len(node[1]) + 1) // 2
            return esc(s[:1]) + '<![CDATA[' + s[1:k] + ']]><!-- c -->' + esc(s[k:]) + '<?pi x?>'
        if style == 'cdata' and ']]>' not in node[1]:
            return '<![CDATA[' + node[1] + ']]>'
        if style == 'numeric':
            return ''.join('&#{};'.format(ord(c)) if c in '<>&' else c for c in node[1])
        return esc(node[1])
    _, tag, attrs, children = node
    a = ''.join(' {}="{}"'.format(n, esc(v, True)) for n, v in (attrs[::-1] if style == 'comments' else attrs))
    if not children and style != 'open':
        return '<{}{}/>'.format(tag, a)
    has_text = any(c[0] == 't' for c in children)
    inner = []
    for c in children:
        if style == 'indent' and not has_text:
            inner.append('\n' + '  ' * (depth + 1))
        if style == 'comments' and c[0] == 'e':
            inner.append('<!-- {} --><?pi x?>'.format(tag))
        if style == 'remarks' and lone_text(c):
            inner.append(['<!-- a -->', '<?pi a?>', '<!----><!--x-->'][depth % 3])
        inner.append(x_text(c, style, depth + 1))
        if style == 'remarks' and lone_text(c):
            inner.append(['<?pi b?>', '<!-- <b>b</b> -->', '<!--&-->'][depth % 3])
    if style == 'comments' and children and children[-1][0] == 'e':
        inner.append('<!-- end -->')
    if style == 'indent' and not has_text and children:
        inner.append('\n' + '  ' * depth)
    return '<{}{}>{}</{}>'.format(tag, a, ''.join(inner), tag)


STYLES = ['plain', 'indent', 'comments', 'cdata', 'open', 'numeric', 'decl', 'doctype', 'remarks', 'broken']


def document(node, style):
    body = x_text(node, style)
    if style == 'decl':
        return '<?xml version="1.0" encoding="utf-8"?>\n' + body + '\n'
    if style == 'comments':
        return '<?xml version="1.0"?><!-- c --><?pi y?>' + body + '<!-- after -->'
    if style == 'doctype':
        return '<!DOCTYPE {}>\n'.format(node[1]) + body
    return body


def x_children():
    t = [('t', 'x'), ('t', ' y z '), ('t', '7'), ('t', '-1.5'), ('t', 'a&<b>"é'), ('t', ' \n ')]
    a = [(), (('i', '7'),), (('i', 'x'), ('j', ''))]
    out = list(t)
    for tag in ('p', 'q'):
        for at in a:
            out.append(('e', tag, at, ()))
            for ch in t[:5]:
                out.append(('e', tag, at, (ch,)))
    out += [('e', 'p', (), (('e', 'q', (), (('t', '1'),)),)), ('e', 'p', (), (('e', 'q', (), (('t', '1'),)), ('e', 'q', (), (('t', '2'),)))),
            ('e', 'p', (), (('t', 'u'), ('e', 'q', (), ()), ('t', 'v'))), ('e', 'p', (), (('t', 'u'), ('e', 'q', (), ()), ('t', 'u'))),
            ('e', 'i', (), (('t', '7'),)), ('e', 'ns:t', (('ns:a', '1'),), (('t', '7'),))]
    return out


NUMERALS = ['0', '-0', '007', '+5', '1.', '.5', '1e3', '-2E-2', '1E400', '0x1F', '0b1', '0o7', '1,5', '1 000', '--1', '1e', 'e1', '1.2.3', '12345678901234567890',
            '0.1', '1/2', '7%', '- 1', 'True', 'None', '5L', '1j', '(1)', '0.30000000000000004']
BLANKS = ['x ', ' x', '  ', ' ', '7 ', ' 7', ' 1.5 ', 'x  y', ' a b ', '']


def gen_numerals(tier):
    for k, v in enumerate(NUMERALS + BLANKS):
        for w in (NUMERALS + BLANKS)[k % 5::5]:
            yield (v, w)


def run_numerals(case, ctx):
    """Spellings of numbers, and blanks around values, in attributes and in texts."""
    v, w = case
    for node in (('e', 'root', (('a', v), ('b', w)), ()), ('e', 'root', (('a', v),), (('t', w),)), ('e', 'root', (), (('e', 'p', (('b', w),), (('t', v),)), ('e', 'p', (), (('t', w),)))),
                 ('e', 'root', (), (('t', v), ('e', 'q', (('a', w),), ()), ('t', w)))):
        xml_case(ctx, node, (case, 0), ['plain', 'comments', 'cdata', 'decl', 'broken'])


def gen_xml(tier):
    ch = range(len(x_children()))
    kids = x_children()
    for at in range(3):
        yield (at,)
        for i in ch:
            yield (at, i)
        for i, j in itertools.product(ch, ch):
            if kids[i][0] == 't' and kids[j][0] == 't':
                continue            # two adjacent texts are one text
            if at and tier == 'quick' and (i + j) % 3:
                continue
            yield (at, i, j)
    if tier != 'quick':
        for i, j, k in itertools.product(ch, list(ch)[::2], ch):
            if 't' in (kids[i][0] + kids[j][0]).replace('e', '') and kids[i][0] == kids[j][0] or kids[j][0] == kids[k][0] == 't':
                continue
            yield (0, i, j, k)


def convert(s):
    """Numbers as described: integers, floating-point numbers, otherwise the string."""
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return s


def run_xml(case, ctx):
    kids = x_children()
    attrs = [(), (('i', '7'),), (('i', 'x'), ('k', '1.50'))][case[0]]
    node = ('e', 'root', attrs, tuple(kids[i] for i in case[1:]))
    xml_case(ctx, node, case)


def xml_case(ctx, node, case, styles=STYLES):
    ns = ' xmlns:ns="u"'
    for style in styles:
        doc = document(node, style)
        declared = 'ns:' in doc
        for conv in (False, True):
            want_root = x_term(node, convert if conv else (lambda s: s))
            if declared:
                doc2 = doc.replace('<root', '<root' + ns, 1)
                # the namespace declaration is an attribute of the root element
                want_root = x_term(('e', node[1], node[2] + (('xmlns:ns', 'u'),), node[3]), convert if conv else (lambda s: s))
            else:
                doc2 = doc
            want = SI([want_root])
            kw = {'convert_numerics': True} if conv else {}
            ctx.step()
            H.check_object(ctx, cxml.import_xml(io.StringIO(doc2), **kw), want, lambda: 'import of {!r} {}'.format(doc2[:600], kw))
            if style in ('plain', 'decl', 'comments') and sum(case[1:]) % 4 == 0:
                with Scratch() as d:
                    p = os.path.join(d, 'x.xml')
                    with open(p, 'w', encoding='utf-8') as f:
                        f.write(doc2)
                    ctx.step()
                    H.check_object(ctx, cxml.import_xml(p, **kw), want, lambda: 'import of the file {!r} {}'.format(doc2[:600], kw))
            ctx.outcome((len(want_root[2][1]) if want_root[2][0] == 's' else -1))
    ctx.state(case)
    ctx.trace()


def gen_xml_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL[:5] if tier != 'quick' else []):
        yield ('wide', n)
        yield ('same', n)
        yield ('attrs', n)
        if n <= 100:
            yield ('deep', n)


def run_xml_scaled(case, ctx):
    kind, n = case
    if kind == 'wide':
        node = ('e', 'root', (), tuple(('e', 'row', (('n', str(i)),), (('e', 'v', (), (('t', str(i % 7)),)),)) for i in range(n)))
    elif kind == 'same':
        node = ('e', 'root', (), tuple(('e', 'r{}'.format(i % 5), (), (('t', str(i % 3)),)) for i in range(n)))
    elif kind == 'attrs':
        node = ('e', 'root', tuple(('a{}'.format(i), str(i)) for i in range(n)), (('t', 'x'),))
    else:
        node = ('e', 'leaf', (), (('t', '1'),))
        for i in range(n):
            node = ('e', 'n{}'.format(i), (('a', 'b'),) if i % 2 else (), (node,))
    xml_case(ctx, node, case[:1] + (4,), styles=['plain', 'indent', 'comments', 'remarks'])
    if kind == 'wide':
        doc = {'rows': [{'n': i, 'v': {'w': i % 7}} for i in range(n)]}
        ctx.step()
        H.check_object(ctx, cjson.import_json(io.StringIO(json.dumps(doc))), SI(j_term(doc)), lambda: 'JSON with {} rows'.format(n))
        H.check_object(ctx, cjson.import_json(io.StringIO(json.dumps(doc['rows']))), SI(j_term(doc['rows'])), lambda: 'JSON with {} rows'.format(n))
    ctx.state(case)


# -- the formatted text of a document ---------------------------------------------------------------------
def gen_formatted(tier):
    ch = range(len(x_children()))
    for at in range(3):
        yield (at,)
        for i in ch:
            yield (at, i)
    kids = x_children()
    for i, j in itertools.product(ch, ch):
        if not kids[i][0] == kids[j][0] == 't' and (tier != 'quick' or (i + j) % 3 == 0):
            yield (0, i, j)


def run_formatted(case, ctx):
    kids = x_children()
    attrs = [(), (('i', '7'),), (('i', 'x'), ('k', '1.50'))][case[0]]
    node = ('e', 'root', attrs, tuple(kids[i] for i in case[1:]))
    for style in STYLES:
        if style == 'broken':
            continue                # the pieces of a text get lines of their own
        doc = document(node, style)
        if 'ns:' in doc:
            doc = doc.replace('<root', '<root xmlns:ns="u"', 1)
        want = T.term(cxml.import_xml(io.StringIO(doc)))
        for indent in ('   ', '\t', ''):
            ctx.step()
            text = cxml.xml_to_str(io.StringIO(doc), indent_text=indent, truncate=False)
            H.check_object(ctx, cxml.import_xml(io.StringIO(text)), want, lambda: 'import of {!r}, formatted from {!r}'.format(text[:500], doc[:500]))
            again = cxml.xml_to_str(io.StringIO(doc), indent_text=indent, truncate=False)
            if again != text:
                ctx.fail('formatting {!r} twice gives {!r} and {!r}'.format(doc[:300], text[:300], again[:300]))
        whole = cxml.xml_to_str(io.StringIO(doc), max_line_len=10000)
        if whole != cxml.xml_to_str(io.StringIO(doc), truncate=False):
            ctx.fail('short lines of {!r} are changed: {!r}'.format(doc, whole))
        n = len(whole)
        for pre, post in ((0, 0), (5, 0), (0, 5), (1, 1), (7, 3), (n // 2, n - n // 2), (n - 2, 1), (n, n), (1, n - 1)):
            ctx.step()
            got = cxml.xml_to_str(io.StringIO(doc), max_line_len=10000, pre_len=pre, post_len=post)
            exp = whole if not pre or not post or pre + post >= n else whole[:pre] + '\n...\n' + whole[n - post:]
            if got != exp:
                ctx.fail('pre_len={} post_len={} of {!r} gives {!r}'.format(pre, post, whole, got))
    ctx.state(case)
    ctx.trace()


# -- documents in other encodings ---------------------------------------------------------------------------
ENCODINGS = ['utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii', 'windows-1252']
WORDS = ['x', '\u00e9', '\u00c3\u00a9', '\u00fc 7', '\u20ac', '\u03bb\u4e2d', 'a\u00ff']


def gen_encodings(tier):
    for enc in ENCODINGS:
        for i, j in itertools.product(range(len(WORDS)), range(len(WORDS))):
            for style in ('plain', 'indent', 'comments', 'cdata', 'broken'):
                yield (enc, i, j, style)


def run_encodings(case, ctx):
    enc, i, j, style = case
    node = ('e', 'root', (('a', WORDS[i]),), (('e', 'p', (), (('t', WORDS[j]),)), ('e', 'q', (('b', WORDS[j]),), ())))
    body = x_text(node, style)
    if style in ('cdata', 'broken'):
        try:
            body.encode(enc)
        except UnicodeEncodeError:
            return                  # such a section cannot be written in this encoding
    doc = '<?xml version="1.0" encoding="{}"?>\n'.format(enc.replace('-sig', '')) + body
    raw = doc.encode(enc, 'xmlcharrefreplace')
    want = SI([x_term(node, lambda s: s)])
    how = lambda: 'import of {!r}'.format(raw)
    with Scratch() as d:
        p = os.path.join(d, 'x.xml')
        with open(p, 'wb') as f:
            f.write(raw)
        ctx.step(4)
        H.check_object(ctx, cxml.import_xml(p), want, how)
        with open(p, 'rb') as f:
            H.check_object(ctx, cxml.import_xml(f), want, how)
        H.check_object(ctx, cxml.import_xml(io.BytesIO(raw)), want, how)
        H.check_object(ctx, cxml.import_xml(io.StringIO(doc)), want, how)
        if style != 'broken':
            text = cxml.xml_to_str(p, truncate=False)
            H.check_object(ctx, cxml.import_xml(io.StringIO(text)), want, lambda: 'import of {!r}, formatted from {!r}'.format(text, raw))
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('json', gen_json, run_json, block=8),
    Family('xml', gen_xml, run_xml, block=4),
    Family('numerals', gen_numerals, run_numerals, block=16),
    Family('encodings', gen_encodings, run_encodings, block=16),
    Family('formatted', gen_formatted, run_formatted, block=4),
    Family('scaled', gen_xml_scaled, run_xml_scaled),
]
