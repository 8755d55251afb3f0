"""Compounds by position flags."""

from vlib import gen, spec as sp
from vlib.engine import Check
from vlib.model import Model
from checks._lookup import compare


class L06(Check):
    id = 'L06'
    rule = ('a dictionary with at least one accepted word that is only correct as a compound and at least one rejected '
            'sequence of forms; counted once per distinct dictionary')
    assumptions = ['words of at most 6, 9 or 12 letters for COMPOUNDMIN 1, 2, 3, or of up to nine parts without common letters; '
                   'break points switched off']
    quick_n = 1400
    thorough_n = 6000
    min_nontrivial = 1000

    def gen(self, src):
        if src.one_in(6):
            spec, words = gen.gen_chain(src)
            spec['break'] = []
            return {'spec': spec, 'alphabet': '', 'chains': words}
        spec, alphabet = gen.gen_compound(src)
        spec['break'] = []
        return {'spec': spec, 'alphabet': alphabet}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        forms = gen.thin(gen.loose_forms(spec, 60), 14)
        real = [text for place in ('BEGIN', 'MIDDLE', 'END') for text in model.table(place)]
        words = dict.fromkeys(gen.compound_words(spec, [*gen.thin(dict.fromkeys(real), 10), *forms]))
        words.update(dict.fromkeys(forms))
        words.update(dict.fromkeys(gen.all_words(alphabet[:2], 5)))
        words = [word for word in words if word and len(word) <= gen.longest_word(spec)]
        words = case.get('chains') or words
        accepted, rejected = compare(ctx, dictionary, model, words)
        only = [word for word in accepted if not model.analyses(word, compounds=False)]
        ctx.count('accepted compounds', len(only))
        ctx.count('rejected words', len(rejected))
        for word in only[:40]:
            for _, parts in model.analyses(word, affixes=False)[:3]:
                ctx.count(f'accepted compounds of {len(parts)} parts')
                if any(part.s1 for part in parts[:-1]):
                    ctx.count('accepted with inner suffix')
                if any(part.p1 for part in parts[1:]):
                    ctx.count('accepted with inner prefix')
        if only and rejected:
            ctx.nontrivial(spec)


CHECK = L06()
