"""Affixed words are accepted exactly when the dictionary licenses them."""

from vlib import gen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model


class L01(Check):
    id = 'L01'
    rule = ('a dictionary with at least one accepted word that needs an affix and at least one rejected word made of the '
            'same stems and affixes; counted once per distinct dictionary')
    assumptions = ['break points are switched off, all words are in lower case']
    quick_n = 2400
    thorough_n = 12000
    min_nontrivial = 1000

    def gen(self, src):
        spec, alphabet = gen.gen_affixed(src)
        spec['break'] = []
        return {'spec': spec, 'alphabet': alphabet}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        queries = dict.fromkeys(gen.thin(gen.loose_forms(spec), 260))
        queries.update(dict.fromkeys(gen.thin(model.table(None), 200)))
        good = [word for word in queries if model.lookup(word)]
        queries.update(dict.fromkeys(gen.all_words(alphabet[:3], 3)))
        for word in gen.thin(good, 4):
            queries.update(dict.fromkeys(gen.near(word, alphabet)))
        accepted = rejected = 0
        for word in queries:
            if not word:
                continue
            want = model.lookup(word)
            got = ctx.sut(f'lookup({word!r})', dictionary.lookup, word)
            if got is not want:
                raise Violation(f'lookup({word!r}) returned {got!r}, the entries and affixes say {want!r}')
            if want:
                accepted += word not in model.by_stem
            else:
                rejected += 1
        ctx.count('accepted affixed words', accepted)
        ctx.count('rejected words', rejected)
        for name in ('p1', 's1', 'p2', 's2'):
            if any(getattr(form, name) for word in good for _, form in model.analyses(word)):
                ctx.count(f'dictionaries with a valid {name}')
        if accepted and rejected:
            ctx.nontrivial(spec)


CHECK = L01()
