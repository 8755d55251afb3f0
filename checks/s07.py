"""Phonetic suggestions."""

import random

from vlib import gen, sgen
from vlib.engine import Check
from checks import _suggest


def gen_rule(src, letters):
    text = src.word(letters, 1, 6 if src.one_in(12) else 3)
    size = len(text)
    if src.one_in(4):
        text += '(' + ''.join(dict.fromkeys(src.word(letters, 1, 3))) + ')'
        size += 1
    if size > 1 and src.one_in(3):
        text += '-' * src.rng_int(1, size - 1)
    text += src.weighted([(8, ''), (2, '^'), (2, '$'), (1, '<'), (1, '^$'), (1, '<^'), (1, '<$')])
    if src.one_in(10):
        # a priority, which is not used
        text += str(src.n(10))
    return [text, src.weighted([(3, '_'), (3, src.pick(letters)), (3, src.pick(letters)), (2, src.word(letters, 2, 2))])]


class S07(Check):
    id = 'S07'
    rule = ('a dictionary with a PHONE table and a misspelling with at least one phonetic suggestion; counted once per '
            'distinct dictionary and misspelling')
    assumptions = ['rows whose look-ahead covers the whole pattern (they would consume nothing) are not generated']
    quick_n = 2800
    thorough_n = 7000
    min_nontrivial = 1000

    def gen(self, src):
        spec = sgen.empty()
        alphabet = src.pick(['abcd', 'abcde', 'aeiphf', 'котя', 'stkc'])
        letters = alphabet.upper()
        spec['phone'] = [gen_rule(src, letters) for _ in range(src.rng_int(10, 30) if src.one_in(12) else src.length(1, 9, 80))]
        spec['phone'][:0] = [[text.upper(), 'X'] for text in gen.idle(src, mark='q')]
        wrong = src.word(alphabet, 3, 14 if src.one_in(10) else 8)
        if src.one_in(5):
            sgen.special_flags(src, spec)
        words = sgen.Words(src, spec, alphabet, affixes=src.one_in(4))
        big = len(wrong) > 4 and src.one_in(10)
        if big:
            # more entries than are considered
            rng = random.Random(src.n(1 << 30))
            for _ in range(rng.randrange(20, 160)):
                chars = list(wrong)
                for _ in range(rng.randrange(1, 4)):
                    chars[rng.randrange(len(chars))] = rng.choice(alphabet)
                spec['words'].append([''.join(chars), [], []])
        for _ in range(src.rng_int(2, 9)):
            text = wrong
            for _ in range(src.rng_int(1, 4)):
                text = sgen.far_edits(src, text, alphabet)
            tags = [['ph', sgen.far_edits(src, wrong, alphabet)]] if src.one_in(8) else []
            words.add(sgen.recased(src, text, 6), sgen.with_marks(src, spec), tags)
        if src.pct(75) or big:
            spec['opt']['MAXNGRAMSUGS'] = src.weighted([(5, 0), (2, 1), (1, 2)])
        if src.one_in(6):
            spec['opt']['TRY'] = alphabet[:2]
        return {'spec': spec, 'words': [sgen.recased(src, wrong, 5), sgen.far_edits(src, wrong, alphabet)]}

    def run(self, case, ctx):
        spec = case['spec']
        model, dictionary = _suggest.prepare(ctx, spec)
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            num = sum(source == 'phonet' for _, source in want)
            if num:
                ctx.nontrivial((spec, word))
                ctx.count(f'lists with {num} phonetic')


CHECK = S07()
