"""C21: the text forms of a value are determined by it and show it completely."""
import ast
import contextlib
import html.parser
import io
import itertools
import re

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
import algebraixlib.util.html as ahtml
import algebraixlib.util.latexprinter as lp
from algebraixlib.util.mathobjectprinter import mo_to_str

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, MI, RP, S, SI, UNDEF

PROPERTY = 'C21'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'repr evaluated and str, long and short LaTeX (colour on and off) parsed back for 720 values of all kinds, all atom pairs of 24 '
             'awkward values as couplets, sets and multisets, all sets and multisets with <= 6 of 7 mixed elements (short forms), each in two '
             'or more build orders and query states; the indented text of 1139 values; HTML pages parsed back for 158 values and all lists of <= 3 descriptors of 8; sizes up to 300',
    'thorough': 'atom triples, all sets with <= 7 of 9 mixed elements',
}
NS = {'Atom': mo.Atom, 'Couplet': mo.Couplet, 'Set': mo.Set, 'Multiset': mo.Multiset}
# the same, reading the elements in the order in which they are written
TREE = {'Atom': A, 'Couplet': lambda left, right: ('c', left, right), 'Set': lambda *xs: ('s', xs),
        'Multiset': lambda d: ('m', tuple(d.items()))}
ATOMS = [A(v) for v in ['', 'a', "'", '"', '\'"', ', ', 'a, b', '{', '}', '\\}', '(->)', '[a:1]', '\n', 'é', '1', 'True', 1, True, 1.0, 0, False, None, b'b', -1.5]]


# -- reading the text forms -----------------------------------------------------------------------------
LIT = re.compile(r"""b?'(?:[^'\\]|\\.)*'|b?"(?:[^"\\]|\\.)*"|-?[0-9]+(?:\.[0-9]+)?(?:e[-+]?\d+)?|True|False|None""", re.S)


class Reader:
    def __init__(self, text):
        self.s, self.i = text, 0

    def at(self, *toks):
        return any(self.s.startswith(t, self.i) for t in toks)

    def take(self, tok):
        if not self.s.startswith(tok, self.i):
            raise ValueError('expected {!r} at {!r}'.format(tok, self.s[self.i:self.i + 30]))
        self.i += len(tok)

    def opt(self, tok):
        if self.at(tok):
            self.take(tok)
            return True
        return False

    def literal(self):
        m = LIT.match(self.s, self.i)
        if not m:
            raise ValueError('expected a literal at {!r}'.format(self.s[self.i:self.i + 30]))
        self.i = m.end()
        return A(ast.literal_eval(m.group()))

    def end(self):
        if self.i != len(self.s):
            raise ValueError('text after the value: {!r}'.format(self.s[self.i:self.i + 30]))


def read_str(text):
    """Parse str(value): returns the value's tree with the elements as written, none repeated."""
    r = Reader(text)

    def items(close, item):
        out = []
        while not r.opt(close):
            if out:
                r.take(', ')
            out.append(item())
        return out

    def value():
        if r.opt('('):
            left = value()
            r.take('->')
            right = value()
            r.take(')')
            return ('c', left, right)
        if r.opt('{'):
            out = items('}', value)
            if len(set(out)) != len(out):
                raise ValueError('an element is repeated')
            return ('s', tuple(out))
        if r.opt('['):
            def pair():
                v = value()
                r.take(':')
                n = r.literal()
                return v, n[2]
            out = items(']', pair)
            if len(dict(out)) != len(out):
                raise ValueError('an element is repeated')
            return ('m', tuple(out))
        return r.literal()
    t = value()
    r.end()
    return t


def read_latex(text, short, colour):
    """Parse the LaTeX of a value into a term; elided parts become ('more', n), cut atoms ('cut', prefix)."""
    r = Reader(text)

    def space():
        while r.at(' ', '\n', '\\ ', '\\\\\n', '\\\\ '):
            if r.at('\\\\\n'):
                r.take('\\\\\n')
            elif r.at('\\ '):
                r.take('\\ ')
            else:
                r.i += 1

    def atom():
        r.take('\\mbox{')
        m = LIT.match(r.s, r.i)
        if m and r.s.startswith('}', m.end()):
            r.i = m.end() + 1
            return A(ast.literal_eval(m.group()))
        if short:
            n = lp.Config.short_atom_len
            cut = r.s[r.i:r.i + n]
            r.i += n
            r.take('...}')
            return ('cut', cut)
        raise ValueError('no atom at {!r}'.format(r.s[r.i:r.i + 30]))

    def comp(c):
        if r.opt('\\left('):
            v = colour_part(c, value)
            r.take('\\right)')
            if v[0] in ('a', 'cut'):
                raise ValueError('atom in parentheses')
            return v
        return colour_part(c, atom)

    def colour_part(c, read):
        if colour:
            r.take('\\color{' + c + '}{')
        v = read()
        if colour:
            r.take('}')
        return v

    def couplet():
        left = comp('red')
        r.take('{\\mapsto}{')
        right = comp('blue')
        r.take('}')
        return ('c', left, right)

    def seq(close, item):
        array = r.opt('\\begin{array}{l}')
        out = []
        more = None
        while True:
            space()
            if array and r.opt('\\end{array}'):
                r.take(close)
                break
            if not array and r.opt(close):
                break
            if out:
                r.take(',')
                space()
            if r.opt('\\text{...}('):
                m = re.compile(r'(\d+)\)').match(r.s, r.i)
                r.i = m.end()
                more = int(m.group(1))
                out.append(('more', more))
                continue
            if more is not None:
                raise ValueError('element after the ellipsis')
            out.append(item())
        return out

    def elem():
        # a couplet starts with a component; a parenthesised couplet with '('
        if r.opt('('):
            v = value()
            r.take(')')
            return v
        return value()

    def value():
        start = r.i
        if r.opt('\\left\\{'):
            return ('s', tuple(seq('\\right\\}', elem)))
        if r.opt('\\left['):
            def pair():
                v = elem()
                r.take(':')
                space()
                m = re.compile(r'\d+').match(r.s, r.i)
                r.i = m.end()
                return v, int(m.group())
            return ('m', tuple(seq('\\right]', pair)))
        if r.at('\\left(', '\\color'):
            return couplet()
        v = atom()
        if r.at('{\\mapsto}'):
            r.i = start
            return couplet()
        return v
    t = value()
    r.end()
    return t


def latex_expected(t, short, order):
    """The tree of the LaTeX form: elements in sort order; order(t) gives the sorted elements."""
    if t[0] == 'a':
        text = repr(t[2])
        if short and len(text) > lp.Config.short_atom_len + 3:
            return ('cut', text[:lp.Config.short_atom_len])
        return t
    if t[0] == 'c':
        return ('c', latex_expected(t[1], short, order), latex_expected(t[2], short, order))
    es = order(t)
    n, keep = len(es), lp.Config.short_set_len
    more = ()
    if short and n > keep + 1:
        es, more = es[:keep], (('more', n - keep),)
    if t[0] == 's':
        return ('s', tuple(latex_expected(e, short, order) for e in es) + more)
    return ('m', tuple((latex_expected(e, short, order), k) for e, k in es) + more)


def sorted_terms(t):
    """The elements in the library's sort order (itself the subject of C01)."""
    if t[0] == 's':
        return [T.term(o) for o in sorted(T.mk(e) for e in t[1])]
    d = dict(t[1])
    return [(T.term(o), d[T.term(o)]) for o in sorted(T.mk(e) for e in d)]


_order_cache = {}


def order(t):
    if t not in _order_cache:
        _order_cache[t] = sorted_terms(t)
    return _order_cache[t]


# -- the check of one value -------------------------------------------------------------------------------
def readable(t):
    if t[0] == 'a':
        return t[1] in ('str', 'int', 'float', 'bool', 'NoneType', 'bytes') and t[2] == t[2] and t[2] not in (float('inf'), float('-inf'))
    if t[0] == 'c':
        return readable(t[1]) and readable(t[2])
    return all(readable(e if t[0] == 's' else e[0]) for e in t[1])


FORMS = [('repr', repr), ('str', str)] + [
    ('latex{}{}'.format(' short' if sh else '', ' colour' if co else ''), (lambda sh, co: lambda o: latex(o, sh, co))(sh, co)) for sh in (False, True) for co in (False, True)]


def latex(o, short, colour):
    saved = lp.Config.colorize_output
    lp.Config.colorize_output = colour
    try:
        return lp.math_object_to_latex(o, short) if short else lp.math_object_to_latex(o)
    finally:
        lp.Config.colorize_output = saved


def check_value(ctx, t, preps=('fresh', 'warm', 'rebuilt')):
    texts = {}
    for prep in preps:
        for k in (0, 1, 2):
            if k and prep != 'fresh':
                continue
            obj = drive.PREPS[prep](T.mk(t, k))
            for name, f in FORMS:
                text = f(obj)
                ctx.step()
                if texts.setdefault(name, text) != text or f(obj) != text:
                    ctx.fail('{} of {} differs between equal values ({}, order {}): {!r} and {!r}'.format(name, T.show(t), prep, k, texts[name], text))
            if T.term(obj) != t:
                ctx.fail('printing changed {}'.format(T.show(t)))
    try:
        back = eval(texts['repr'], dict(NS))
    except Exception as e:
        ctx.fail('repr of {} cannot be evaluated ({}): {!r}'.format(T.show(t), e, texts['repr']))
    if T.term(back) != t or back != T.mk(t):
        ctx.fail('repr of {} evaluates to {}'.format(T.show(t), T.show(T.term(back))))
    try:
        got = read_str(texts['str'])
    except (ValueError, SyntaxError, AttributeError, IndexError, TypeError) as e:
        ctx.fail('str of {} cannot be read ({}): {!r}'.format(T.show(t), e, texts['str']))
    tree = latex_expected(t, False, order)
    if got != tree:
        ctx.fail('str of {} reads as {}: {!r}'.format(T.show(t), got, texts['str']))
    got = eval(texts['repr'], dict(TREE))
    if got != tree:
        ctx.fail('repr of {} is not in sort order: {!r}'.format(T.show(t), texts['repr']))
    for sh, co in itertools.product((False, True), repeat=2):
        name = 'latex{}{}'.format(' short' if sh else '', ' colour' if co else '')
        try:
            got = read_latex(texts[name], sh, co)
        except (ValueError, SyntaxError, AttributeError, IndexError, TypeError) as e:
            ctx.fail('{} of {} cannot be read ({}): {!r}'.format(name, T.show(t), e, texts[name]))
        if got != latex_expected(t, sh, order):
            ctx.fail('{} of {} reads as {}: {!r}'.format(name, T.show(t), got, texts[name]))
    ctx.outcome(t[0])
    ctx.state(T.key(t)[:2000])


def values():
    vals = [t for t in U.structured() if readable(t)] + U.rels2() + U.rels2(A('a'), A(1)) + U.clans2(2)
    s = U.sharp_rels()
    vals += [t for t in list(U.subsets(s, 2, 2)) + list(U.multisubsets(s[:8], 2, 3)) if readable(t)]
    long = A('a rather long text {'), A(12345678901234567890), A('0123456789'), A('01234567890'), A('012345678901')
    vals += list(long) + [C(x, y) for x, y in itertools.product(long, repeat=2)] + [SI(long), MI({x: 10 for x in long}), S(S(SI(long))), C(SI(long), SI(long))]
    vals += [MI({A('a'): n}) for n in (1, 2, 5, 6, 7, 100)] + [C(C('a', 'b'), C(C('c', 'd'), S('e'))), C(M({'a': 2}), EMPTYM), C(EMPTY, EMPTY)]
    # nested couplets with long parts
    big = [A('a rather long text {'), SI(A(i) for i in range(8)), MI({A(i): 2 for i in range(8)})]
    for x in big:
        for y in (C(x, 'a'), C('a', x), C(x, x)):
            for z in (C(y, 'b'), C('b', y), C(y, y)):
                vals += [z, C(z, 'c'), C('c', z), S(z), M({z: 2}), S(S(z), C(z, y))]
    vals += [t for t in U.medium_all() if readable(t)]
    return U.uniq(vals)


def gen_values(tier):
    for t in values():
        yield (t,)


def run_values(case, ctx):
    check_value(ctx, case[0])
    ctx.trace()


def gen_atoms(tier):
    for c in itertools.product(ATOMS, repeat=2 if tier == 'quick' else 2):
        yield c
    if tier != 'quick':
        for c in itertools.combinations(ATOMS, 3):
            yield c


def run_atoms(case, ctx):
    if len(case) == 3:
        check_value(ctx, SI(case), ('fresh',))
        return
    x, y = case
    for t in (C(x, y), S(x, y), MI({x: 2, y: 3}), S(C(x, y), C(y, x)), S(C(x, y), x), S(S(x), y), MI({C(x, y): 1, y: 2}), C(S(x), MI({y: 2}))):
        check_value(ctx, t, ('fresh',))
    if x == y:
        check_value(ctx, x)
    ctx.trace()


MIXED = [A('a'), A(1), C('a', 'b'), C('b', 1), S(C('a', 1)), EMPTY, M({'a': 1}), A('long atom text'), C('z', S('q'))]


def gen_mixed(tier):
    el, hi = (MIXED[:7], 6) if tier == 'quick' else (MIXED, 7)
    for n in range(hi + 1):
        for c in itertools.combinations(range(len(el)), n):
            yield c
    flat = [A('a'), A('b'), A(1), A(2), C('a', 1), C('b', 2), C('c', 3), C('d', 4)]
    for n in range(5, 9):
        for c in itertools.combinations(range(len(flat)), n):
            yield ('flat',) + c


def run_mixed(case, ctx):
    if case and case[0] == 'flat':
        es = [[A('a'), A('b'), A(1), A(2), C('a', 1), C('b', 2), C('c', 3), C('d', 4)][i] for i in case[1:]]
    else:
        es = [MIXED[i] for i in case]
    check_value(ctx, SI(es))
    check_value(ctx, MI({e: 1 + i % 3 for i, e in enumerate(es)}))
    check_value(ctx, S(SI(es), 'x'), ('fresh',))
    check_value(ctx, C(SI(es), MI({e: 1 for e in es})), ('fresh',))
    ctx.trace()


# -- HTML ---------------------------------------------------------------------------------------------------
class Page(html.parser.HTMLParser):
    """Collects [(tag, id, text)] of the elements that hold the content, and checks the nesting."""
    KEEP = ('page_title', 'input_title', 'description_brief', 'data_algebra_construct', 'dataAlgebraArea', 'latexArea')
    TAGS = {'html', 'head', 'body', 'script', 'style', 'h1', 'h2', 'div', 'pre', 'br'}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.out = [], []

    def handle_starttag(self, tag, attrs):
        if tag not in self.TAGS:
            raise ValueError('stray element <{}>'.format(tag))
        if tag == 'br':
            return
        i = dict(attrs).get('id')
        self.stack.append((tag, i))
        if i:
            self.out.append([i, ''])

    def handle_startendtag(self, tag, attrs):
        if tag != 'br':
            raise ValueError('stray element <{}/>'.format(tag))
        self.handle_data('\x01')

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            raise ValueError('</{}> does not match'.format(tag))
        self.stack.pop()

    def handle_data(self, data):
        if any(i for _, i in self.stack):
            self.out[-1][1] += data


def parse_page(text):
    p = Page()
    p.feed(text)
    p.close()
    if p.stack:
        raise ValueError('unclosed {}'.format(p.stack))
    return [(i, s) for i, s in p.out if i in Page.KEEP]


def strip_reqs(s):
    return re.sub(r'\\\(\\require\{x?color\}\\\)', '', s)


def gen_pages(tier):
    for t in U.uniq([v for v in values() if readable(v)][::4] + ATOMS + [A('<b>&amp;</b>'), S('<script>', C('&', '</div>')), M({'<': 2, '&lt;': 3})]):
        yield (t,)


def run_pages(case, ctx):
    t, = case
    obj = T.mk(t)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        page = ahtml.create_simple_web_page(obj)
    ctx.step(2)
    if out.getvalue() != page + '\n':
        ctx.fail('the page is not printed as returned')
    want = [('dataAlgebraArea', str(obj)), ('latexArea', '$$' + lp.math_object_to_latex(obj) + '$$')]
    try:
        got = [(i, strip_reqs(s)) for i, s in parse_page(page)]
    except ValueError as e:
        ctx.fail('page of {}: {}'.format(T.show(t), e))
    if got != want:
        ctx.fail('page of {} shows {}, expected {}'.format(T.show(t), got, want))
    s = ahtml.as_html_handle_data_algebra(obj)
    if html.unescape(s) != '$$' + lp.math_object_to_latex(obj) + '$$' or '<' in s:
        ctx.fail('HTML of {}: {!r}'.format(T.show(t), s))
    ctx.state(T.key(t))
    ctx.trace()


DESCR = [('title', A('a'), 'text'), ('<i>&amp;', S('<b>', 1), 'a < b & "c"\n  {x}'), ('{0}', RP(('a', 1)), '{page_title}'), ('', EMPTY, ''),
         ('é日', 'plain <text> &', '%s'), ("'q'", [A('x'), 'raw <b>x</b> &amp; <', S(1)], 'list'), ('num', 42, 'n'), ('t', M({'a': 2}), '</div></pre>')]


def gen_docs(tier):
    for n in range(4):
        for c in itertools.product(range(len(DESCR)), repeat=n):
            yield c


def run_docs(case, ctx):
    def mk(v):
        return [mk(x) for x in v] if isinstance(v, list) else T.mk(v) if isinstance(v, tuple) else v

    def tex(v):
        return '$$' + lp.math_object_to_latex(mk(v)) + '$$'
    descr = [ahtml.DataAlgebraHtmlDescriptor(a, mk(v), d) for a, v, d in (DESCR[i] for i in case)]
    title = DESCR[case[0]][0] + 'T<1>' if case else 'x'
    page = ahtml.math_object_as_html(title, descr)
    ctx.step()
    want = [('page_title', title)]
    for a, v, d in (DESCR[i] for i in case):
        shown = [(tex(x) + ' ' if isinstance(x, tuple) else x) for x in v] if isinstance(v, list) else tex(v) if isinstance(v, tuple) else v
        if isinstance(shown, str):
            # a plain text is a sequence of characters
            shown = list(shown) if not isinstance(v, tuple) else shown
        want += [('input_title', a), ('description_brief', d), ('data_algebra_construct', '\x01'.join(shown) + '\x01' if isinstance(shown, list) else str(shown))]
    try:
        got = [(i, strip_reqs(s)) for i, s in parse_page(page)]
    except ValueError as e:
        ctx.fail('document of {}: {}'.format(case, e))
    if got != want:
        ctx.fail('document of {} shows {}, expected {}'.format(case, got, want))
    # own templates
    page = ahtml.math_object_as_html(title, descr, header_template='H[{page_title}]', footer_template='F',
                                     mathobject_template='<{input_title}|{description_brief}|{data_algebra_construct}>')
    esc = ahtml.as_html_handle_basic_parameter
    want = 'H[' + html.escape(title) + ']' + ''.join('<{}|{}|{}>'.format(html.escape(d.input_title), html.escape(d.description_brief), ahtml.as_html_handle_data_algebra(d.data_algebra_construct)) for d in descr) + 'F'
    if page != want:
        ctx.fail('document of {} with own templates: {!r}, expected {!r}'.format(case, page, want))
    # descriptors of values
    objs = [mk(v) for _, v, _ in (DESCR[i] for i in case) if isinstance(v, tuple)]
    built = ahtml.build_descriptors_from_math_obj(objs)
    if [(d.input_title, d.data_algebra_construct) for d in built] != [(str(o), o) for o in objs]:
        ctx.fail('descriptors of {} are {}'.format(objs, [(d.input_title, d.data_algebra_construct) for d in built]))
    try:
        got = [(i, strip_reqs(s)) for i, s in parse_page(ahtml.math_object_as_html(title, built))]
    except ValueError as e:
        ctx.fail('document of {}: {}'.format(objs, e))
    got = [x for x in got if x[0] in ('input_title', 'data_algebra_construct')]
    if got != [x for o in objs for x in (('input_title', str(o)), ('data_algebra_construct', '$$' + lp.math_object_to_latex(o) + '$$'))]:
        ctx.fail('the document of {} shows {}'.format(objs, got))
    ctx.state(case)
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL if tier != 'quick' else []):
        for t in (U.int_set(n), U.int_mset(n), U.func_rel(n), U.row_clan(n), U.row_mclan(n), SI(A(str(i)) for i in range(n)), SI(A(i) if i % 2 else A(str(i)) for i in range(n))):
            yield (t,)
    t = A('x')
    for d in range(12):
        t = S(t) if d % 3 == 0 else C(t, 'r') if d % 3 == 1 else MI({t: d})
        yield (t,)


def run_scaled(case, ctx):
    check_value(ctx, case[0], ('fresh', 'rebuilt'))
    ctx.trace()


# -- the indented text (mo_to_str) ----------------------------------------------------------------------------
def squeeze(text):
    """The text without white space outside of literals."""
    out, i = [], 0
    while i < len(text):
        m = LIT.match(text, i) if text[i] in '\'"b' else None
        if m:
            out.append(m.group())
            i = m.end()
        else:
            if text[i] not in ' \n':
                out.append(text[i])
            i += 1
    return ''.join(out)


def read_indented(text, short):
    """The value an indented text shows; of short texts sets and multisets are read as bags, ('b', elements)."""
    r = Reader(squeeze(text))

    def items():
        out = []
        while not r.opt('}'):
            out.append(value())
            r.opt(',')
        return out

    def value():
        if short:
            if r.opt('('):
                left = value()
                r.take('->')
                right = value()
                r.take(')')
                return ('c', left, right)
            if r.opt('{'):
                return ('b', tuple(sorted(items(), key=repr)))
            return r.literal()
        if r.opt('Atom('):
            res = r.literal()
        elif r.opt('Couplet(left='):
            left = value()
            r.take(',right=')
            res = ('c', left, value())
        elif r.opt('Set({'):
            out = items()
            if len(set(out)) != len(out):
                raise ValueError('an element is repeated')
            res = SI(out)
        else:
            r.take('Multiset({')
            d = {}
            for e in items():
                d[e] = d.get(e, 0) + 1
            res = MI(d)
        r.take(')')
        return res
    t = value()
    r.end()
    return t


def bag(t):
    if t[0] == 'a':
        return t
    if t[0] == 'c':
        return ('c', bag(t[1]), bag(t[2]))
    return ('b', tuple(sorted((b for e in t[1] for b in ([bag(e)] if t[0] == 's' else [bag(e[0])] * e[1])), key=repr)))


def gen_indented(tier):
    for t in values():
        if small(t):
            yield (t,)
    for a in ATOMS:
        for t in (C(a, 'x'), C('x', a), SI([a]), SI([a, C(a, a)]), MI({a: 2})):
            yield (t,)
    el = [A('a'), A(1), C('a', 1), S('q', 'r'), M({'m': 2}), C(S('l'), S(C(1, 2)))]
    for t in U.subsets(el, 0, 4):
        yield (t,)
    for t in U.multisubsets(el, 3, 2):
        yield (t,)
    for n in U.SIZES:
        yield (U.int_set(n),)
        yield (U.func_rel(n),)
        yield (U.row_clan(n),)


def small(t):
    return t[0] == 'a' or t[0] == 'c' and small(t[1]) and small(t[2]) or t[0] in 'sm' and all(
        small(e if t[0] == 's' else e[0]) and (t[0] == 's' or e[1] < 200) for e in t[1])


def run_indented(case, ctx):
    t, = case
    for prep, k in (('fresh', 0), ('fresh', 1), ('warm', 0)):
        obj = drive.PREPS[prep](T.mk(t, k))
        full = {}
        for short in (False, True):
            text = full[short] = mo_to_str(obj, abbreviated=short, max_line_len=10 ** 9)
            ctx.step()
            try:
                got = read_indented(text, short)
            except (ValueError, SyntaxError, IndexError) as e:
                ctx.fail('the indented text of {} cannot be read ({}): {!r}'.format(T.show(t), e, text))
            if got != (bag(t) if short else t):
                ctx.fail('the indented text of {} reads as {}: {!r}'.format(T.show(t), got, text))
            # Lines that are too long are cut and say so; nothing else changes.
            for limit in (95, 40):
                ctx.step()
                cut = mo_to_str(obj, abbreviated=short, max_line_len=limit)
                lines, all_ = cut.split('\n'), text.split('\n')
                if len(lines) != len(all_) or not all(
                        c == a or c.endswith('...)') and a.startswith(c[:-4]) for c, a in zip(lines, all_)):
                    ctx.fail('the indented text of {} with lines of {} is {!r} instead of {!r}'.format(T.show(t), limit, cut, text))
        if T.term(obj) != t:
            ctx.fail('printing changed {}'.format(T.show(t)))
    ctx.outcome('indented ' + t[0])
    ctx.state(('indented', T.key(t)[:2000]))
    ctx.trace()


FAMILIES = [
    Family('values', gen_values, run_values),
    Family('atoms', gen_atoms, run_atoms),
    Family('short-forms', gen_mixed, run_mixed),
    Family('pages', gen_pages, run_pages),
    Family('documents', gen_docs, run_docs),
    Family('indented', gen_indented, run_indented, block=4),
    Family('scaled', gen_scaled, run_scaled),
]
