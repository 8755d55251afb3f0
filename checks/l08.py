"""Compound restrictions."""

from vlib import gen, spec as sp
from vlib.engine import Check
from vlib.model import Model
from checks._lookup import compare

RESTRICTIONS = ['CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP']


class L08(Check):
    id = 'L08'
    rule = ('a dictionary with at least one word rejected only because of a restriction and at least one accepted '
            'compound; counted once per distinct dictionary')
    assumptions = ['words of at most 6, 9 or 12 letters for COMPOUNDMIN 1, 2, 3, or of up to nine parts without common letters; '
                   'break points switched off',
                   'at most three restrictions at a time']
    quick_n = 700
    thorough_n = 7000
    min_nontrivial = 1000

    def gen(self, src):
        if src.one_in(6):
            spec, words = gen.gen_chain(src, restrictions=True, rules=src.one_in(4))
            spec['break'] = []
            return {'spec': spec, 'alphabet': '', 'chains': words}
        spec, alphabet = gen.gen_compound(src, restrictions=True, rules=src.one_in(4), affixes=src.coin())
        spec['break'] = []
        return {'spec': spec, 'alphabet': alphabet}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        free = dict(spec, cpat=[], opt={k: v for k, v in spec['opt'].items() if k not in RESTRICTIONS},
                    fl={k: v for k, v in spec['fl'].items() if k not in ('FORCEUCASE',)},
                    words=[w for w in spec['words'] if ' ' not in w[0]])
        unrestricted = Model(free)
        real = [text for place in ('BEGIN', 'MIDDLE', 'END') for text in model.table(place)]
        pool = [*gen.thin(dict.fromkeys(real), 12), *gen.thin(gen.loose_forms(spec, 40), 6)]
        words = dict.fromkeys(gen.compound_words(spec, pool))
        words.update(dict.fromkeys(gen.all_words(alphabet[:2], 4)))
        for word in gen.thin(words, 60):
            words[word[:1].upper() + word[1:]] = None
            words[word.upper()] = None
        words = [word for word in words if word and len(word) <= gen.longest_word(spec)]
        words = case.get('chains') or words
        accepted, rejected = compare(ctx, dictionary, model, words)
        only = [word for word in accepted if not model.analyses(word, compounds=False)]
        restricted = [word for word in rejected if unrestricted.lookup(word)]
        ctx.count('accepted compounds', len(only))
        ctx.count('rejected by a restriction', len(restricted))
        for name in [*spec['opt'], *spec['fl'], *(['cpat'] if spec['cpat'] else [])]:
            if restricted:
                ctx.count(f'dictionaries rejecting with {name}')
        if only and restricted:
            ctx.nontrivial(spec)


CHECK = L08()
