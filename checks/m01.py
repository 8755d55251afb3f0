"""Measures of similarity and phonetic codes."""

from vlib import gen, sgen, smodel, spec as sp
from vlib.engine import Check, Violation
from checks.s07 import gen_rule

ALPHABETS = ['ab', 'abc', 'abcdefgh', 'a', 'ко\xe9', 'aAbB']


def common_subsequence(one, two):
    """Longest common subsequence by trying all of the shorter string."""
    best = 0
    for mask in range(1 << len(one)):
        size = mask.bit_count()
        if size > best:
            rest = iter(two)
            if all(char in rest for pos, char in enumerate(one) if mask >> pos & 1):
                best = size
    return best


class M01(Check):
    id = 'M01'
    rule = ('two different strings with a common letter; counted once per distinct pair, size of n-grams and phonetic table')
    assumptions = ['at most one of the two penalties for length is asked for', 'strings of at most 24 characters, phonetic '
                   'rules that consume something']
    quick_n = 5000
    thorough_n = 40000
    min_nontrivial = 2000

    def gen(self, src):
        alphabet = src.pick(ALPHABETS)
        longest = src.weighted([(6, 7), (2, 12), (1, 24)])
        pairs = []
        for _ in range(4):
            one = src.word(alphabet, 0, longest)
            kind = src.n(4)
            two = one
            if kind == 0:
                two = src.word(alphabet, 0, longest)
            elif kind == 1:
                two = one[src.n(4):] + src.word(alphabet, 0, 4)
            else:
                for _ in range(kind):
                    two = sgen.far_edits(src, two, alphabet)
            pairs.append([one, two] if src.coin() else [two, one])
        letters = ''.join(dict.fromkeys(alphabet.upper()))
        phone = [[text.upper(), 'X'] for text in gen.idle(src, mark='q')]
        phone += [gen_rule(src, letters) for _ in range(src.rng_int(1, 8))]
        return {'pairs': pairs, 'size': src.weighted([(2, 1), (3, 2), (3, 3), (3, 4), (1, 9)]), 'phone': phone}

    def run(self, case, ctx):
        import spylls.hunspell.algo.string_metrics as metrics      # pylint: disable=import-outside-toplevel
        from spylls.hunspell.algo.phonet_suggest import metaphone  # pylint: disable=import-outside-toplevel
        size = case['size']
        spec = dict(sp.empty(), phone=case['phone'], words=[['a', [], []]])
        table = sp.load(ctx, spec).aff.PHONE

        def same(what, got, want):
            if got != want:
                raise Violation(f'{what} is {got!r}, by definition {want!r}')

        for one, two in case['pairs']:
            def call(func, *args, **kwargs):
                return ctx.sut(f'{func.__name__}{args!r}', func, *args, **kwargs)
            same(f'number of equal characters of {one!r} and {two!r}', call(metrics.commoncharacters, one, two),
                 sum(one[pos] == two[pos] for pos in range(min(len(one), len(two)))))
            same(f'length of the common start of {one!r} and {two!r}', call(metrics.leftcommonsubstring, one, two),
                 max(num for num in range(min(len(one), len(two)) + 1) if one[:num] == two[:num]))
            length = common_subsequence(one, two) if len(one) < 9 else smodel.lcs(one, two)
            same(f'length of the longest common subsequence of {one!r} and {two!r}', call(metrics.lcslen, one, two), length)
            for weighted in (False, True):
                for penalty, options in ((None, {}), ('longer', {'longer_worse': True}), ('any', {'any_mismatch': True})):
                    same(f'{size}-gram similarity of {one!r} and {two!r} (weighted: {weighted}, penalty: {penalty})',
                         call(metrics.ngram, size, one, two, weighted=weighted, **options),
                         smodel.ngram(size, one, two, weighted, penalty))
            for word in (one, two):
                same(f'phonetic code of {word!r} by {case["phone"]!r}', call(metaphone, table, word),
                     smodel.phonetic(case['phone'], word))
                ctx.count('phonetic codes', bool(smodel.phonetic(case['phone'], word)))
            if one != two and set(one) & set(two):
                ctx.nontrivial((one, two, size, case['phone']))


CHECK = M01()
