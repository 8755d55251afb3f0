"""Letter case of suggestions and output conversion."""

from vlib import gen, sgen
from vlib.engine import Check
from checks import _suggest


class S05(Check):
    id = 'S05'
    rule = ('a dictionary and a misspelling with a suggestion shown otherwise than it is in the dictionary (case or output '
            'conversion), corrected by case alone, or kept because of KEEPCASE; counted once per distinct dictionary and '
            'misspelling')
    assumptions = ['KEEPCASE is put on entries without affixes']
    quick_n = 900
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):
        alphabet = src.pick(['abcd', 'abc', 'asdf', 'ab\xe9o', 'котя', 'iıab', 'as\xdf', 'abn\'', 'бвг'])
        spec, wrong, alphabet = sgen.base(src, alphabet=alphabet, special=False, affixes=src.one_in(3), amount=(1, 5),
                                          kinds=['swap', 'extra', 'bad', 'forgot', 'words', 'upper', 'move'])
        opt = spec['opt']
        if 'i' in alphabet and src.coin():
            opt['LANG'] = src.pick(['tr', 'az', 'crh'])
        if '\xdf' in alphabet and src.coin():
            opt['CHECKSHARPS'] = True
        if src.one_in(3) and not spec['sfx'] and not spec['pfx']:
            spec['fl']['KEEPCASE'] = 'k'
        if src.one_in(3):
            spec['fl']['FORBIDDENWORD'] = 'f'
        for word in spec['words']:
            word[0] = sgen.recased(src, word[0], 2)
            word[1] += ['k'] if 'KEEPCASE' in spec['fl'] and src.one_in(3) else []
        if src.one_in(3):
            # only the case is wrong
            spec['words'].append([sgen.recased(src, wrong, 1), [], []])
        for word in list(spec['words']):
            if 'FORBIDDENWORD' in spec['fl'] and src.one_in(2):
                spec['words'].append([sgen.recased(src, word[0], 1), ['f'], []])
        if src.one_in(4):
            spec['fl']['FORCEUCASE'] = 'u'
            spec['fl']['COMPOUNDFLAG'] = 'z'
            opt['COMPOUNDMIN'] = src.rng_int(1, 2)
            wrong = wrong[:7]
            for word in spec['words']:
                word[1] += [flag for flag in 'uz' if src.coin()]
            if len(wrong) > 2 and src.coin():
                cut = src.rng_int(1, len(wrong) - 1)
                spec['words'] += [[wrong[:cut], ['z'], []], [wrong[cut:], ['z', 'u'], []]]
            for _, _, rows in spec['pfx']:
                for row in rows:
                    row[0] = ''
        if src.one_in(3):
            self.gen_oconv(src, spec, alphabet)
        if src.one_in(2):
            opt['MAXNGRAMSUGS'] = src.n(3)
        if src.one_in(8) and alphabet in ('abcd', 'abc', 'asdf'):
            spec['phone'] = [[src.pick(alphabet).upper(), src.pick(alphabet).upper()] for _ in range(src.rng_int(1, 4))]
        asked = [gen.recase(src, wrong) for _ in range(2)] + [wrong[:1].upper() + wrong[1:], wrong.upper()]
        if src.one_in(3):
            asked.append(''.join(ch.upper() if src.one_in(3) else ch for ch in wrong))
        return {'spec': spec, 'words': list(dict.fromkeys(asked))}

    @staticmethod
    def gen_oconv(src, spec, alphabet):
        seen = set()
        letters = alphabet + alphabet.upper() + ' '
        for _ in range(src.rng_int(1, 10 if src.one_in(10) else 4)):
            body = src.word(letters.strip(), 1, 5 if src.one_in(10) else 2)
            if body in seen or ' ' in body:
                continue
            seen.add(body)
            pattern = src.weighted([(6, body), (2, '_' + body), (2, body + '_')])
            spec['oconv'].append([pattern, src.pick(['x', 'yy', '.', "'", alphabet[0], alphabet[-1] + 'x', '_'])])
        spec['oconv'][:0] = [[text, 'x'] for text in gen.idle(src)]

    def run(self, case, ctx):
        spec = case['spec']
        model, dictionary = _suggest.prepare(ctx, spec)
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            changed = [text for text, source in want if text not in model.by_stem and source != 'twowords']
            kind = model.case.kind(word)
            if want:
                ctx.count(f'lists for case {kind}')
            if changed or any(source in ('case', 'forceucase') for _, source in want):
                ctx.nontrivial((spec, word))


CHECK = S05()
