"""Forbidden words."""

from vlib import gen, sgen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model
from vlib.smodel import SuggestModel
from checks import _lookup, _suggest


class L05(Check):
    id = 'L05'
    rule = ('a dictionary with at least one word that is rejected (or hidden from suggestions) only because of FORBIDDENWORD '
            'and at least one accepted word; counted once per distinct dictionary')
    assumptions = ['compounds by flags only', 'words of at most 6, 9 or 12 letters for COMPOUNDMIN 1, 2, 3']
    quick_n = 900
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):
        compound = src.coin()
        if compound:
            spec, alphabet = gen.gen_compound(src, forbidden=True, affixes=src.coin())
            most = gen.longest_word(spec)
        else:
            spec, alphabet = gen.gen_affixed(src, alphabet=src.pick(['ab', 'abc', 'ab\xe9', 'кот']), words=(2, 5),
                                             complexp=False, longest=3)
            spec['fl']['FORBIDDENWORD'] = 'u'
            most = 9
        if src.coin():
            spec['break'] = []
        if src.one_in(3):
            for word in spec['words']:
                if src.one_in(3):
                    word[0] = gen.recase(src, word[0])
        # forbid some of the words that are otherwise correct
        model = Model(spec)
        forms = gen.thin([text for text in model.table(None) if 0 < len(text) <= most], 40)
        stems = [word[0] for word in spec['words']]
        picked = []
        for _ in range(src.length(1, 4, 60)):
            kind = src.weighted([(5, 'form'), (3 if compound else 0, 'compound'), (2, 'stem')])
            if kind == 'form' and forms:
                text = src.pick(forms)
            elif kind == 'compound':
                text = (src.pick(stems) + src.pick(stems))[:most]
            else:
                text = src.pick(stems)
            if src.one_in(5):
                text = gen.recase(src, text)
            picked.append(text)
            flags = ['u'] + [flag for flag in ('A', 'z', 'x', 'w') if src.one_in(4)]
            spec['words'].insert(src.n(len(spec['words']) + 1), [text, flags, []])
        if src.coin():
            spec['opt']['TRY'] = alphabet
        if src.coin():
            spec['opt']['MAXNGRAMSUGS'] = src.n(2)
        asked = [sgen.recased(src, sgen.far_edits(src, src.pick(picked), alphabet)[:most], 5) for _ in range(2)]
        asked.append(src.pick(picked)[:most])
        return {'spec': spec, 'alphabet': alphabet, 'ask': asked}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = SuggestModel(spec)
        dictionary = sp.load(ctx, spec)
        for place in (None, 'BEGIN', 'MIDDLE', 'END'):
            model.table(place)
        free = SuggestModel(dict(spec, fl={k: v for k, v in spec['fl'].items() if k != 'FORBIDDENWORD'}))
        most = gen.longest_word(spec) if 'COMPOUNDMIN' in spec['opt'] or spec['fl'].get('COMPOUNDFLAG') else 12
        words = dict.fromkeys(model.by_stem)
        words.update(dict.fromkeys(gen.thin(model.table(None), 60)))
        words.update(dict.fromkeys(gen.thin(gen.compound_words(spec, gen.thin(words, 12), 60), 80)))
        bad = [stem for stem in model.by_stem if model.is_forbidden(stem)]
        for word in bad:
            words.update(dict.fromkeys(gen.case_patterns(word, 9)))
            for other in gen.thin(words, 4):
                words[word + '-' + other] = None
                words[other + '-' + word] = None
            words.update(dict.fromkeys(gen.thin(gen.near(word, alphabet), 12)))
        for _, flags, rows in [*spec['sfx'], *spec['pfx']]:
            del flags
            for row in rows:
                for word in bad:
                    words[word + row[1]] = None
                    words[row[1] + word] = None
        words = [word for word in words if word and len(word) <= most + 4]
        accepted, rejected = _lookup.compare(ctx, dictionary, model, words)
        lost = [word for word in rejected if free.lookup(word)]
        for word in bad:
            if model.has_flag(word, 'u', every=True) and dictionary.lookup(word):
                raise Violation(f'lookup({word!r}) is True for a forbidden word')
        hidden = 0
        for word in case['ask']:
            want = _suggest.compare(ctx, dictionary, model, word)
            for text, _ in want:
                if model.is_forbidden(text):
                    raise Violation(f'suggest({word!r}) returned the forbidden {text!r}')
            hidden += len({text for text, _ in free.suggest(word)} - {text for text, _ in want})
        ctx.count('rejected because forbidden', len(lost))
        ctx.count('suggestions hidden because forbidden', hidden)
        ctx.count('accepted', len(accepted))
        if (lost or hidden) and accepted:
            ctx.nontrivial(spec)


CHECK = L05()
