"""Everything the library can do with one value (used where 'any use of a value' is enumerated)."""
import io

import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition
from algebraixlib.algebras import clans, couplets, multiclans, multisets, relations, sets
from algebraixlib.import_export import csv as ccsv, mojson
from algebraixlib.util import html, latexprinter, mathobjectprinter, rdf

from . import drive, history as H, terms as T


def _export(o):
    f = io.StringIO()
    ccsv.export_csv(o, f)
    return f.getvalue()


def _export_lefts(o):
    f = io.StringIO()
    ccsv.export_csv(o, f, ordered_lefts=['b', 'a'])
    return f.getvalue()


def _table(fmt):
    def f(o):
        from algebraixlib.import_export import rdf as ierdf
        out = io.StringIO()
        ierdf.export_table(out, [mo.Atom('a'), mo.Atom('b')], o, out_format=fmt)
        return out.getvalue()
    return f


def _latex(short):
    def f(o):
        return latexprinter.math_object_to_latex(o, short=short)
    return f


def abs_any(t):
    return T.abs_clan(t) or T.abs_mclan(t)


def is_coll(t):
    return t[0] in 'sm'


def printable(t):
    return True


def always(t):
    return True


USES = {
    'repr': (always, repr), 'str': (always, str), 'hash': (always, hash),
    'ground-set': (always, lambda o: o.get_ground_set()),
    'left-set': (always, lambda o: o.get_left_set()), 'right-set': (always, lambda o: o.get_right_set()),
    'call': (lambda t: t[0] == 's', lambda o: (o('a'), o('b'), o(1))),
    'index': (always, lambda o: (o['a'], o['b'], o[1])),
    'iter': (is_coll, list), 'len': (is_coll, len), 'cardinality': (is_coll, lambda o: o.cardinality), 'sorted': (is_coll, sorted),
    'contains': (is_coll, lambda o: ('a' in o, 'zz' in o, o.has_element(mo.Atom('zz')), mo.Set() in o)),
    'multiplicity': (lambda t: t[0] == 'm', lambda o: (o.get_multiplicity(mo.Atom('a')), o.get_multiplicity(mo.Atom('zz')))),
    'compare': (always, lambda o: (o == o, o < mo.Atom('a'), o > mo.Set(), o <= o, o != mo.Multiset())),
    'latex': (always, _latex(False)), 'latex-short': (always, _latex(True)),
    'mo_to_str': (always, mathobjectprinter.mo_to_str), 'mo_to_str-abbr': (always, lambda o: mathobjectprinter.mo_to_str(o, abbreviated=True)),
    'html': (always, html.as_html_handle_data_algebra),
    'html2': (always, lambda o: html.math_object_as_html('t', html.build_descriptors_from_math_obj([o]))),
    'json': (always, lambda o: __import__('json').dumps(o, cls=mojson.ExportJson)),
    'export-csv': (abs_any, _export), 'export-csv-lefts': (abs_any, _export_lefts),
    'table-csv': (T.abs_clan, _table('csv')), 'table-json': (T.abs_clan, _table('json')),
    'is-graph': (always, lambda o: (rdf.is_graph(o), rdf.is_absolute_graph(o), rdf.is_triple(o), rdf.is_absolute_triple(o))),
    'wrap-set': (always, lambda o: (mo.Set(o), mo.Set([o, 'x']), mo.Set({o}, direct_load=True))),
    'wrap-mset': (always, lambda o: (mo.Multiset(o), mo.Multiset({o: 3}), mo.Multiset([o, o]))),
    'wrap-couplet': (always, lambda o: (mo.Couplet(o), mo.Couplet('x', o), mo.Couplet(o, o, direct_load=True))),
    'set-of-data': (is_coll, lambda o: mo.Set(o.data, direct_load=True)),
    'mset-of-data': (lambda t: t[0] == 'm', lambda o: mo.Multiset(o.data, direct_load=True)),
    'mset-of-data2': (lambda t: t[0] == 'm', lambda o: mo.Multiset(o.data)),
    'unary-extend': (lambda t: t[0] == 's', lambda o: extension.unary_extend(o, lambda e: mo.Atom('x'))),
    'unary-multi': (is_coll, lambda o: extension.unary_multi_extend(o, lambda e: e)),
    'binary-extend': (lambda t: t[0] == 's', lambda o: extension.binary_extend(o, o, lambda a, b: a)),
    'binary-multi': (lambda t: t[0] == 'm', lambda o: extension.binary_multi_extend(o, o, lambda a, b: a)),
    'partition': (is_coll, lambda o: partition.partition(o, lambda e: e.is_atom)),
    'labeled': (is_coll, lambda o: partition.make_labeled_partition(o, lambda e: e.is_atom)),
    'listgen': (T.is_mclan, lambda o: list(multiclans.order_slice_to_listgen(o, lambda a, b: mo.Atom(repr(a) < repr(b)), mo.Atom(0), mo.Atom(100)))),
    'slice': (T.is_mclan, lambda o: multiclans.order_slice(o, lambda a, b: mo.Atom(repr(a) < repr(b)), mo.Atom(1), mo.Atom(2))),
    'restrict': (lambda t: t[0] == 's', lambda o: sets.restrict(o, lambda e: e.is_atom)),
    'from-set': (is_coll, lambda o: clans.from_set('L', *o)),
    'some': (lambda t: t[0] == 's', sets.some), 'some-m': (lambda t: t[0] == 'm', multisets.some),
    'chain': (lambda t: t[0] == 's', lambda o: sets.chain_binary_operation(o, sets.union, sets.is_member)),
    'chain-m': (lambda t: t[0] == 's', lambda o: sets.chain_binary_operation(o, multisets.add, multisets.is_member)),
    'match': (T.is_clan, lambda o: (rdf.pattern_match(o, {'a': 1}), rdf.match_and_project(o, {'a': 1}, {'a': 'n'}))),
    'project': (T.is_clan, lambda o: clans.project(o, 'a', 'b')),
    'project-m': (T.is_mclan, lambda o: multiclans.project(o, 'a', 'b')),
    'deepcopy': (always, lambda o: (__import__('copy').deepcopy(o))),
}
for _q, _f in H.ALL_QUERIES.items():
    USES['?' + _q] = (always, _f)


def uses_of(t):
    return [n for n, (ok, _) in USES.items() if ok(t)]
