"""C12: agreement relations are symmetric and match Russian agreement."""
from yargy import and_, or_, not_
from yargy.morph import Form, Grams
from yargy.relations import (
    gender_relation, number_relation, case_relation, gnc_relation
)
from yargy.relations.constructors import Relation, is_relation

from .c11 import formulas, truth_of
from .grammar import chunks

GENDER = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr']
NUMBER = ['sing', 'plur', 'Sgtm', 'Pltm']
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']
CASE = CASES + ['Fixd']
OTHER = ['NOUN', 'anim', 'Name', 'gen2', 'loc2']
ALL = GENDER + NUMBER + CASE + OTHER


class View(object):
    """Grammemes of a form as the statement speaks of them."""

    def __init__(self, ctx, grams):
        self.ctx = ctx
        self.grams = grams

    def has(self, *names):
        return self.ctx.or_(*[self.ctx.member(g, self.grams) for g in names])

    @property
    def common(self):
        return self.has('Ms-f', 'ms-f')


def gender(ctx, a, b):
    return ctx.or_(
        ctx.and_(a.has('plur'), b.has('plur')),
        *[ctx.and_(a.has(g), b.has(g)) for g in ('masc', 'femn', 'neut')],
        ctx.and_(a.common, b.has('masc', 'femn')),
        ctx.and_(b.common, a.has('masc', 'femn')),
        a.has('GNdr'), b.has('GNdr'),
    )


def number(ctx, a, b):
    return ctx.or_(
        ctx.and_(a.has('sing'), b.has('sing')), ctx.and_(a.has('plur'), b.has('plur')),
        ctx.and_(a.has('Sgtm'), b.has('sing')), ctx.and_(b.has('Sgtm'), a.has('sing')),
        ctx.and_(a.has('Pltm'), b.has('plur')), ctx.and_(b.has('Pltm'), a.has('plur')),
    )


def case(ctx, a, b):
    same = ctx.and_(*[ctx.eq(a.has(g), b.has(g)) for g in CASES])
    return ctx.or_(same, a.has('Fixd'), b.has('Fixd'))


def gnc(ctx, a, b):
    return ctx.and_(gender(ctx, a, b), number(ctx, a, b), case(ctx, a, b))


BANK = {'gender': (gender_relation, gender), 'number': (number_relation, number),
        'case': (case_relation, case), 'gnc': (gnc_relation, gnc)}


def pair(ctx, names):
    sets = [ctx.set('f%d' % k, names) for k in range(2)]
    forms = [Form('слово%d' % k, Grams(s)) for k, s in enumerate(sets)]
    return forms, [View(ctx, s) for s in sets]


def harness(ctx):
    what = ctx.params['what']
    relation, oracle = BANK[what]
    (form, other), (a, b) = pair(ctx, ALL)
    got = ctx.or_(relation()(form, other), False)
    ctx.check_equal(got, oracle(ctx, a, b), what + ' of two forms')
    ctx.check_equal(ctx.or_(relation()(other, form), False), got, what + ' of the forms exchanged')
    ctx.observe('agree', got)
    ctx.cover(what + (' true' if ctx.concrete(got) else ' false'))


def compositions(ctx):
    """Boolean combinations of the relations of the bank."""
    p = ctx.params
    f = ctx.pick('formula', formulas(0)[p['from']:p['to']])
    names = ctx.pick('relations', [('gender', 'number', 'case'), ('gnc', 'gender', 'case')])
    (form, other), views = pair(ctx, p['grams'])
    relations = [BANK[n][0]() for n in names]
    truth = [BANK[n][1](ctx, *views) for n in names]
    relation = build(f, relations)
    ctx.check(is_relation(relation), 'combination is no relation')
    got = ctx.or_(relation(form, other), False)
    ctx.check_equal(got, truth_of(ctx, f, truth), 'combination %s of %s' % (f, names))
    ctx.check_equal(ctx.or_(relation(other, form), False), got, 'combination %s of the forms exchanged' % (f,))
    ctx.observe('agree', got)
    ctx.cover('combination')


class Table(Relation):
    """Arbitrary relation, symmetric or not."""
    label = 'table'

    def __init__(self, truth):
        self.truth = truth

    def __call__(self, form, other):
        return self.truth[form.normalized, other.normalized]


def arbitrary(ctx):
    """Boolean combinations of arbitrary relations."""
    p = ctx.params
    f = ctx.pick('formula', formulas(1)[p['from']:p['to']])
    forms = [Form(str(k), Grams(frozenset())) for k in range(2)]
    truth = [{(a, b): ctx.flag('r%d_%s%s' % (k, a, b)) for a in '01' for b in '01'} for k in range(3)]
    relation = build(f, [Table(t) for t in truth])
    for x in forms:
        for y in forms:
            expected = truth_of(ctx, f, [t[x.normalized, y.normalized] for t in truth])
            ctx.check_equal(ctx.or_(relation(x, y), False), expected, 'combination %s' % (f,))
    ctx.cover('arbitrary')


def build(f, atoms):
    if isinstance(f, int):
        return atoms[f]
    return {'and': and_, 'or': or_, 'not': not_}[f[0]](*[build(x, atoms) for x in f[1:]])



def shards(tier):
    out = [(what, {'what': what}) for what in BANK]
    for a, b in chunks(formulas(0), 20):
        out.append(('bank-%d' % a, {'h': 'compositions', 'from': a, 'to': b,
                                    'grams': GENDER + NUMBER + CASE}))
    for a, b in chunks(formulas(1), 20):
        out.append(('arbitrary-%d' % a, {'h': 'arbitrary', 'from': a, 'to': b}))
    return out


BOUNDS = {
    tier: 'all pairs of subsets of the %d grammemes %s; %d combinations of the relations of the bank over all the grammemes, '
          '%d combinations of 3 arbitrary relations' % (
              len(ALL), ' '.join(ALL), len(formulas(0)), len(formulas(1)))
    for tier in ('quick', 'thorough')
}
COVER = {'all': ['%s %s' % (w, r) for w in BANK for r in ('true', 'false')] + ['combination', 'arbitrary']}
ASSUMPTIONS = ['forms carry arbitrary grammeme sets, also those no word has']
