"""Letter-case variants."""

from vlib import gen, spec as sp
from vlib.engine import Check
from vlib.model import Model
from checks._lookup import compare

ALPHABETS = ['ab', 'abc', 'abc', 'a\xe9b', 'кот', 'aбc', 'ab\'', 'ab1', 'aσλ', 'aǆb', 'aéz', 'ijk']


class L03(Check):
    id = 'L03'
    rule = ('a dictionary with at least one word accepted in a letter case other than the one of its entry and at least '
            'one rejected only because of its letter case; counted once per distinct dictionary')
    assumptions = ['all 2^n case patterns of words of up to 5 letters, one-letter changes of longer ones',
                   'break points and compounding switched off']
    quick_n = 1200
    thorough_n = 6000
    min_nontrivial = 1000

    def gen(self, src):
        alphabet = src.pick(ALPHABETS)
        spec, _ = gen.gen_affixed(src, alphabet=alphabet, words=(1, 5), special=('NEEDAFFIX',) if src.one_in(5) else (),
                                  complexp=False)
        spec['break'] = []
        keep = src.coin()
        if keep:
            spec['fl']['KEEPCASE'] = 'k'
        for entry in spec['words']:
            entry[0] = gen.recase(src, entry[0])
            if keep and src.one_in(3):
                entry[1].append('k')
        if src.one_in(6):
            for _, _, rows in spec['sfx'] + spec['pfx']:
                for row in rows:
                    if src.coin():
                        row[1] = row[1].upper()
        return {'spec': spec}

    def run(self, case, ctx):
        spec = case['spec']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        base = [*dict.fromkeys(model.by_stem), *gen.thin(model.table(None), 16), *gen.thin(gen.loose_forms(spec), 8)]
        words = {}
        for word in dict.fromkeys(base):
            words.update(dict.fromkeys(gen.case_patterns(word)))
        for char in sorted(set(''.join(model.by_stem))):
            words.update(dict.fromkeys([char, char.upper(), char.lower()]))
        accepted, rejected = compare(ctx, dictionary, model, words)
        exact = set(model.table(None))
        other = [word for word in accepted if word not in exact]
        lows = {word.lower() for word in accepted}
        wrong = [word for word in rejected if word.lower() in lows]
        ctx.count('accepted in another case', len(other))
        ctx.count('rejected because of case', len(wrong))
        if any(model.case.kind(word) == 'HUHINIT' for word in other):
            ctx.count('dictionaries with accepted mixed case starting with a capital')
        if 'KEEPCASE' in spec['fl']:
            ctx.count('dictionaries with KEEPCASE')
        if other and wrong:
            ctx.nontrivial(spec)


CHECK = L03()
