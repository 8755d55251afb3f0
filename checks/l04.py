"""Turkic i and German sharp s."""

from vlib import gen, sgen, spec as sp
from vlib.engine import Check
from vlib.smodel import SuggestModel
from checks import _suggest
from checks._lookup import compare

UP = {ord('i'): 'İ', ord('ı'): 'I'}


class L04(Check):
    id = 'L04'
    rule = ('a dictionary with dotted/dotless i or sharp s in its stems, with an accepted word whose case conversion '
            'involves that letter and a rejected one; counted once per distinct dictionary')
    assumptions = ['languages tr, tr_TR, az, crh against others; break points and compounding switched off']
    quick_n = 700
    thorough_n = 6000
    min_nontrivial = 1000

    def gen(self, src):
        mode = src.weighted([(4, 'turkic'), (4, 'german'), (2, 'other')])
        alphabet = {'turkic': src.pick(['iıa', 'iık', 'ib', 'ıb']), 'german': src.pick(['s\xdfa', 's\xdft', 'as\xdf']),
                    'other': src.pick(['iıa', 's\xdfa', 'iıs\xdf'])}[mode]
        spec, _ = gen.gen_affixed(src, alphabet=alphabet, words=(1, 5), special=(), complexp=False)
        spec['break'] = []
        if mode == 'turkic':
            spec['opt']['LANG'] = src.pick(['tr', 'tr_TR', 'az', 'crh'])
        elif src.coin():
            spec['opt']['LANG'] = src.pick(['de', 'de_DE', 'en_US', 'ru', 'kk', 'hu_HU'])
        if mode == 'german':
            spec['opt']['CHECKSHARPS'] = True
        if src.coin():
            spec['fl']['KEEPCASE'] = 'k'
        for entry in spec['words']:
            if src.one_in(3) and mode != 'turkic':
                entry[0] = gen.recase(src, entry[0])
            elif src.one_in(3):
                entry[0] = entry[0].translate({ord('i'): 'İ', ord('ı'): 'I', ord('a'): 'A', ord('b'): 'B', ord('k'): 'K'}) \
                    if src.coin() else entry[0][:1].translate({ord('i'): 'İ', ord('ı'): 'I'}) + entry[0][1:]
            if 'KEEPCASE' in spec['fl'] and src.one_in(3):
                entry[1].append('k')
        if src.coin():
            spec['opt']['TRY'] = alphabet
        spec['opt']['MAXNGRAMSUGS'] = src.n(3)
        ask = []
        for _ in range(2):
            word = sgen.far_edits(src, src.pick(spec['words'])[0], alphabet)[:7]
            ask += [word.translate(UP).upper() if src.coin() else word.upper(), gen.recase(src, word), word[:1].translate(UP) + word[1:]]
        return {'spec': spec, 'ask': [word for word in dict.fromkeys(ask) if word.upper().count('SS') < 3]}

    def run(self, case, ctx):
        spec = case['spec']
        model = SuggestModel(spec)
        dictionary = sp.load(ctx, spec)
        base = [*dict.fromkeys(model.by_stem), *gen.thin(model.table(None), 16), *gen.thin(gen.loose_forms(spec), 6)]
        words = {}
        for word in dict.fromkeys(base):
            for text in (word, word.replace('\xdf', 'ss'), word.replace('ss', '\xdf'), word.replace('i', 'ı'),
                         word.replace('ı', 'i')):
                words.update(dict.fromkeys(gen.case_patterns(text, 17)))
                words[text.translate(UP).upper()] = None
                words[(text[:1].translate(UP) + text[1:])] = None
                words[(text[:1].translate(UP).upper() + text[1:])] = None
                words[''.join(ch if ch == '\xdf' else ch.upper() for ch in text)] = None
                words[text.upper().replace('SS', '\xdf', 1)] = None
                words[text.upper().replace('SS', 'ẞ')] = None
                if text.startswith('ss'):
                    words['Ss' + text[2:]] = None
        # the number of readings doubles with every SS
        words = gen.thin([word for word in words if word and len(word) < 14 and word.upper().count('SS') < 4], 500)
        accepted, rejected = compare(ctx, dictionary, model, words)
        exact = set(model.table(None))
        other = [word for word in accepted if word not in exact and set(word) & set('iıIİsS\xdf')]
        ctx.count('accepted in another case', len(other))
        ctx.count('rejected', len(rejected))
        for word in case['ask']:
            found = _suggest.compare(ctx, dictionary, model, word)
            ctx.count('suggestion lists with a special letter', bool(set('iıIİ\xdf') & set(''.join(t for t, _ in found))))
        if other and rejected:
            ctx.nontrivial(spec)


CHECK = L04()
