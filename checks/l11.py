"""Options of the lookup object."""

from vlib import gen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model

SWITCHES = ['capitalization', 'allow_nosuggest', 'affix_forms', 'compound_forms']


class L11(Check):
    id = 'L11'
    rule = ('a dictionary with a word accepted by default and rejected because of one option, and another one accepted '
            'with some option switched off; counted once per distinct dictionary')
    assumptions = ['no NOSUGGEST together with compounds made by rules']
    quick_n = 240
    thorough_n = 2500
    min_nontrivial = 1000

    def gen(self, src):
        if src.one_in(3):
            spec, alphabet = gen.gen_affixed(src)
        else:
            spec, alphabet = gen.gen_compound(src, restrictions=src.one_in(3), rules=src.one_in(4), affixes=src.pct(70),
                                              forbidden=src.one_in(4))
        if src.coin():
            for word in spec['words']:
                if src.one_in(3):
                    word[0] = gen.recase(src, word[0])
        for name, letter in (('NOSUGGEST', 'G'), ('KEEPCASE', 'H')):
            if name not in spec['fl'] and src.pct(60) and not (name == 'NOSUGGEST' and spec['crule']):
                spec['fl'][name] = letter
                for word in spec['words']:
                    word[1] += [letter] if src.one_in(3) else []
        if src.one_in(5):
            spec['break'] = []
        if src.one_in(8):
            spec['iconv'].append(['x', alphabet[0]])
        # which of the options are given, and how
        asks = [dict((name, src.coin()) for name in src.sample(SWITCHES, src.rng_int(1, 4))) for _ in range(2)]
        return {'spec': spec, 'alphabet': alphabet, 'asks': [*asks, *({name: False} for name in SWITCHES), {}]}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        for place in (None, 'BEGIN', 'MIDDLE', 'END'):
            model.table(place)
        compounds = bool(spec['crule'] or set(spec['fl']) & {'COMPOUNDFLAG', 'COMPOUNDBEGIN'})
        words = dict.fromkeys(gen.thin(model.table(None), 30))
        words.update(dict.fromkeys(gen.thin(gen.loose_forms(spec, 20), 15)))
        words.update(dict.fromkeys(gen.all_words(alphabet[:2], 2)))
        most = 40
        if compounds:
            real = [text for place in ('BEGIN', 'MIDDLE', 'END') for text in model.table(place)]
            words.update(dict.fromkeys(gen.thin(gen.compound_words(spec, gen.thin(dict.fromkeys(real), 8), 30), 30)))
            most = gen.longest_word(spec)
        for word in gen.thin(words, 12):
            words.update(dict.fromkeys([word.upper(), word[:1].upper() + word[1:], word.swapcase(), word + '-' + word]))
        narrowed = kept = 0
        for word in words:
            if not word or len(word) > most:
                continue
            default = model.lookup(word)
            for ask in case['asks']:
                want = bool(model.analyses(word, ask.get('capitalization', True), ask.get('allow_nosuggest', True),
                                           ask.get('affix_forms', True), ask.get('compound_forms', True), first=True))
                got = ctx.sut(f'good_forms({word!r}, {ask!r})', lambda: next(dictionary.lookuper.good_forms(word, **ask), None))
                if (got is not None) is not want:
                    raise Violation(f'good_forms({word!r}, {ask!r}) starts with {got!r}, the dictionary says {want!r}')
                if set(ask) <= {'capitalization', 'allow_nosuggest'}:
                    want = model.lookup(word, ask.get('capitalization', True), ask.get('allow_nosuggest', True))
                    got = ctx.sut(f'lookuper({word!r}, {ask!r})', lambda: dictionary.lookuper(word, **ask))
                    if got is not want:
                        raise Violation(f'lookuper({word!r}, {ask!r}) returned {got!r}, the dictionary says {want!r}')
                    ctx.count('whole lookups with options')
                off = [name for name in ask if not ask[name]]
                narrowed += default and not want and bool(off)
                kept += want and bool(off)
                if default and not want and len(off) == 1:
                    ctx.count(f'rejected without {off[0]}')
        if narrowed and kept:
            ctx.nontrivial(spec)


CHECK = L11()
