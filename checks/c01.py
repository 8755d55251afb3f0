"""Letter case analysis of the loaded dictionary."""

from vlib import spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model, NO, INIT, ALL, HUHINIT, HUH

ALPHABETS = ['abc', 'abz', 'iıa', 'iİIıA', 's\xdfa', 's\xdf', 'a\xe9\xfc', 'коё', 'σςα', 'a1-', "a'9", 'ij\xdfı', 'Ǆǆa']
TURKIC = ['tr', 'tr_TR', 'az', 'crh']
LANGUAGES = ['en', 'en_US', 'de', 'de_DE', 'ru_RU', 'kk', 'nl', 'el_GR']


class C01(Check):
    id = 'C01'
    rule = 'a language setting and a word that is not in small letters; counted once per distinct setting and word'
    assumptions = ['words have at least one letter with an upper case', 'repeated spellings in a list are not compared']
    quick_n = 3000
    thorough_n = 30000
    min_nontrivial = 2000

    def gen(self, src):
        spec = sp.empty()
        if src.pct(70):
            spec['opt']['LANG'] = src.pick(TURKIC) if src.coin() else src.pick(LANGUAGES)
        if src.one_in(3):
            spec['opt']['CHECKSHARPS'] = True
        words = []
        for _ in range(6):
            alphabet = src.pick(ALPHABETS)
            word = src.word(alphabet, 1, 9 if src.one_in(6) else 5)
            style = src.n(5)
            if style == 1:
                word = word.upper()
            elif style == 2:
                word = word[:1].upper() + word[1:]
            elif style:
                word = ''.join(char.upper() if src.coin() else char for char in word)
            if src.one_in(6):
                word = src.pick(['SS', 'ss', 'Ss', 'İ', 'I', 'i', 'ı', '\xdf', '-', '1']) + word
            if word.upper().count('SS') < 4 and word.lower() != word.upper():
                words.append(word)
        return {'spec': spec, 'words': words}

    def run(self, case, ctx):
        spec = case['spec']
        casing = sp.load(ctx, dict(spec, words=[['a', [], []]])).aff.casing
        rules = Model(spec).case
        types = type(ctx.sut('guess', casing.guess, 'a'))

        def listed(name, *args):
            return list(dict.fromkeys(ctx.sut(f'{name}{args!r}', lambda: list(getattr(casing, name)(*args)))))

        def same(what, got, want):
            if got != want:
                raise Violation(f'{what} with {spec["opt"]!r} is {got!r}, documented: {want!r}')

        for word in case['words']:
            kind = rules.kind(word)
            same(f'letter case of {word!r}', ctx.sut('guess', casing.guess, word).name, kind)
            same(f'lowercase of {word!r}', listed('lower', word), list(dict.fromkeys(rules.lower(word))))
            same(f'uppercase of {word!r}', ctx.sut('upper', casing.upper, word), rules.upper(word))
            same(f'capitalized {word!r}', listed('capitalize', word), list(dict.fromkeys(rules.capitalized(word))))
            same(f'{word!r} with a small first letter', listed('lowerfirst', word), list(dict.fromkeys(rules.lowerfirst(word))))
            for name in ('variants', 'corrections'):
                got, texts = ctx.sut(f'{name}({word!r})', getattr(casing, name), word)
                same(f'type of {name} of {word!r}', got.name, kind)
                same(f'{name} of {word!r}', list(dict.fromkeys(texts)), list(dict.fromkeys(getattr(rules, name)(word)[1])))
            for cap in (NO, INIT, ALL, HUHINIT, HUH):
                same(f'{word!r} written as {cap}', ctx.sut('coerce', casing.coerce, word, types[cap]), rules.coerce(word, cap))
            ctx.count(f'words {kind}')
            if kind != NO:
                ctx.nontrivial((spec['opt'], word))


CHECK = C01()
