"""Similarity suggestions."""

import random

from vlib import sgen
from vlib.engine import Check
from checks import _suggest


def gen_forms(src):
    """Entries whose forms by prefixes, suffixes and both look like the misspelling."""
    spec = sgen.empty()
    alphabet = src.pick(['abcde', 'abcdefg', 'aeioubst', 'котяблик'])
    many = src.one_in(4)
    wrong = src.word(alphabet, 9, 14) if many else src.word(alphabet, 6, 12)
    for kind, flags in (('pfx', 'PQ'), ('sfx', 'ABC')):
        for flag in flags[:src.rng_int(1, len(flags))]:
            rows = []
            for size in range(1, src.rng_int(2, 6)) if many else [src.rng_int(1, 2) for _ in range(src.rng_int(1, 3))]:
                strip = '' if many or src.coin() else src.word(alphabet, 1, 2)
                rows.append([strip, wrong[:size] if kind == 'pfx' else wrong[-size:], [], strip])
            spec[kind].append([flag, src.pct(75), rows])
    flags = [group[0] for kind in ('pfx', 'sfx') for group in spec[kind]]
    for _ in range(src.rng_int(2, 9)):
        text = wrong[src.rng_int(0, 2):len(wrong) - src.rng_int(0, 2)]
        for _ in range(src.weighted([(2, 1), (4, 2), (2, 3)])):
            text = sgen.far_edits(src, text, alphabet)
        for kind in ('pfx', 'sfx'):
            strip = src.pick(src.pick(spec[kind])[2])[0]
            text = strip + text if kind == 'pfx' else text + strip
        spec['words'].append([text, [flag for flag in flags if src.pct(70)], []])
    opt = spec['opt']
    if src.pct(60):
        opt['MAXNGRAMSUGS'] = src.weighted([(2, 5), (2, 12), (3, 400)])
    if src.pct(60):
        opt['MAXDIFF'] = src.rng_int(6, 10)
    return {'spec': spec, 'words': [wrong, sgen.far_edits(src, wrong, alphabet)]}


class S06(Check):
    id = 'S06'
    rule = ('a dictionary and a misspelling with at least one similarity suggestion; counted once per distinct dictionary '
            'and misspelling')
    assumptions = ['the scores are those of the documentation; entries are unaffected by the conditions of more than one affix']
    quick_n = 1050
    thorough_n = 4000
    min_nontrivial = 1000

    def gen(self, src):     # pylint: disable=too-many-branches
        if src.one_in(6):
            return gen_forms(src)
        spec = sgen.empty()
        alphabet = src.pick(['abcde', 'abcdefg', 'aeioubst', 'abc', 'котяблик', 'ab\xe9odr'])
        wrong = src.word(alphabet, 4, 20 if src.one_in(10) else 10) if src.pct(85) else src.word(alphabet, 1, 3)
        if src.one_in(4):
            sgen.special_flags(src, spec)
        words = sgen.Words(src, spec, alphabet)
        if src.one_in(3):
            for group in spec['sfx']:
                group[2].append(['', src.pick([wrong[-1:], wrong[-2:]]), [], '.'])
                words.sfx.append((group[0], group[2][-1][1]))
            for group in spec['pfx']:
                group[2].append(['', src.pick([wrong[:1], wrong[:2]]), [], '.'])
                words.pfx.append((group[0], group[2][-1][1]))
        big = len(wrong) > 4 and src.one_in(6)
        if big:
            # more entries (or forms) than are considered, all of them similar
            rng = random.Random(src.n(1 << 30))
            seen = set()
            longer = src.coin()
            for _ in range(rng.randrange(90, 260)):
                chars = list(wrong)
                for _ in range(rng.randrange(2, 4)):
                    chars[rng.randrange(len(chars))] = rng.choice(alphabet)
                if longer and rng.randrange(4) == 0:
                    chars.insert(rng.randrange(len(chars)), rng.choice(alphabet))
                text = ''.join(chars)
                if text != wrong and text not in seen:
                    seen.add(text)
                    tags = []
                    if rng.randrange(5) == 0:
                        # a spelling that is as close as the entry, or far from the misspelling
                        close = rng.choice(wrong) + text[1:]
                        tags.append(['ph', rng.choice([close, text[:2] + wrong[2:], ''.join(rng.choice(alphabet) for _ in range(4))])])
                    spec['words'].append([text, [flag for flag in words.flags if rng.randrange(4)], tags])
        else:
            for _ in range(src.rng_int(2, 12)):
                text = wrong
                for _ in range(src.weighted([(1, 1), (4, 2), (4, 3), (2, 4)])):
                    text = sgen.far_edits(src, text, alphabet)
                if src.one_in(8):
                    text = src.word(alphabet, 3, 9)
                tags = []
                if src.one_in(6):
                    tags.append(['ph', sgen.far_edits(src, wrong, alphabet)])
                words.add(sgen.recased(src, text, 6), sgen.with_marks(src, spec), tags)
        opt = spec['opt']
        if src.one_in(3):
            opt['TRY'] = alphabet[:src.rng_int(1, 3)]
        if src.pct(40):
            opt['MAXDIFF'] = src.rng_int(0, 10)
        if src.one_in(3):
            opt['ONLYMAXDIFF'] = True
        if src.pct(40):
            opt['MAXNGRAMSUGS'] = src.weighted([(1, 0), (2, 1), (2, 2), (2, 5), (3, 12)])
        if big and src.pct(80):
            opt['MAXNGRAMSUGS'] = 300
            opt['MAXDIFF'] = src.rng_int(8, 10)
        if src.one_in(8) and alphabet.isascii():
            spec['phone'] = [[alphabet[0].upper(), 'X']]
        asked = [sgen.recased(src, wrong, 5)]
        if not big:
            asked.append(sgen.far_edits(src, wrong, alphabet))
            text = src.pick(spec['words'])[0] if spec['words'] else wrong
            for _ in range(src.rng_int(1, 3)):
                text = sgen.far_edits(src, text, alphabet)
            asked.append(text)
        return {'spec': spec, 'words': asked}

    def run(self, case, ctx):
        spec = case['spec']
        model, dictionary = _suggest.prepare(ctx, spec)
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            num = sum(source == 'ngram' for _, source in want)
            if num:
                ctx.nontrivial((spec, word))
                ctx.count(f'lists with {num if num < 5 else "5 or more"} by similarity')
                if len(spec['words']) > 100:
                    ctx.count('of more than 100 entries')


CHECK = S06()
