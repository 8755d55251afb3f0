"""Break points and numbers."""

from vlib import gen, spec as sp
from vlib.engine import Check
from vlib.model import Model
from checks._lookup import compare

PATTERNS = ['-', '^-', '-$', '.', '^.', '.$', '+', '–', '^–', "'", '*', '-.', '^-.', 'x', '^x', 'x$', 'xy', '^xy', 'xy$',
            '^-$', '/', '=?', '?', '[', '|', '(', '#', '_']
DIGITS = ['1', '12', '0', '007', '3.5', '1.', '.5', '1.2.3', '12a', '1,5', '-1', '1-2', '١٢', '\xb2', '1e5', '1 2', '5.٥',
          '10.', '99.99', '1..2', '12\n', '1.5\n', '\n']


class L09(Check):
    id = 'L09'
    rule = ('a dictionary and break table with at least one word accepted only by cutting and at least one rejected word '
            'that contains a break string; counted once per distinct dictionary')
    assumptions = ['at most 11 pieces per word', 'break strings that can overlap themselves are not generated']
    quick_n = 3200
    thorough_n = 8000
    min_nontrivial = 1000

    def gen(self, src):
        alphabet = src.pick(['ab', 'abx', 'abé'])
        spec, _ = gen.gen_affixed(src, alphabet=alphabet, words=(1, 5), special=(), complexp=False, longest=3)
        if src.pct(75):
            spec['break'] = src.sample(PATTERNS, src.rng_int(5, 9) if src.one_in(8) else src.rng_int(0, 4))
        marks = [pat.strip('^$') for pat in (spec['break'] if spec['break'] is not None else ['-'])] or ['-']
        marks.append('-')
        for entry in spec['words']:
            if src.one_in(4):
                # an entry that contains a break string itself
                other = src.pick(spec['words'])[0]
                mark = src.pick(marks)
                entry[0] = src.weighted([(3, entry[0] + mark + other), (1, mark + other), (1, other + mark), (1, mark)])
            if src.one_in(8):
                entry[0] = gen.recase(src, entry[0])
            entry[0] = entry[0].lstrip('/#') or 'a'
        pieces = [entry[0] for entry in spec['words']] + [src.word(alphabet, 1, 3) for _ in range(2)] + ['', '', '1', '2.5']
        words = []
        for _ in range(40):
            size = src.weighted([(6, 1), (30, 2), (30, 3), (18, 4), (12, 5), (6, 6), (1, 11)])
            text = src.pick(pieces)
            for _ in range(size - 1):
                text += src.pick(marks) + src.pick(pieces)
            if src.one_in(5):
                text = src.pick(marks) + text
            if src.one_in(5):
                text += src.pick(marks)
            if src.one_in(10):
                text = text.upper()
            words.append(text)
        if spec['break']:
            spec['break'][:0] = gen.idle(src)
        return {'spec': spec, 'words': words, 'numbers': src.sample(DIGITS, 6)}

    def run(self, case, ctx):
        spec = case['spec']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        words = [word for word in dict.fromkeys(case['words']) if sum(map(word.count, '-.+x\'*/=?[|(#_–')) <= 10]
        accepted, rejected = compare(ctx, dictionary, model, words + case['numbers'])
        cut = [word for word in accepted if word and not model.good_word(word)]
        bodies = [pat.strip('^$') for pat in model.breaks]
        uncut = [word for word in rejected if any(body in word for body in bodies)]
        ctx.count('accepted by cutting', len(cut))
        ctx.count('rejected with a break string', len(uncut))
        if cut and uncut:
            ctx.nontrivial(case)


CHECK = L09()
