"""Duplicates, limits and switches."""

from vlib import sgen
from vlib.engine import Check, Violation
from vlib.gen import COMPOUND_FLAGS
from checks import _suggest
from checks.s03 import gen_map, gen_rep


class S04(Check):
    id = 'S04'
    rule = ('a dictionary and a misspelling for which some limit or switch changes the list (checked by lifting it in the '
            'model), or a dashed word corrected by pieces, or a phrase that ends the list; counted once per distinct '
            'dictionary and misspelling')
    assumptions = []
    quick_n = 1400
    thorough_n = 4000
    min_nontrivial = 500

    def gen(self, src):     # pylint: disable=too-many-branches
        many = src.one_in(4)
        spec, wrong, alphabet = sgen.base(src, special=src.one_in(5), affixes=src.coin(),
                                          amount=(8, 24) if many else (1, 6))
        opt = spec['opt']
        words = sgen.Words(src, spec, alphabet, affixes=False)
        asked = [wrong]
        mode = src.weighted([(5, 'compound'), (4, 'dash'), (4, 'similar'), (2, 'edits')])
        if mode == 'compound':
            opt['COMPOUNDMIN'] = src.rng_int(1, 3)
            flag = COMPOUND_FLAGS['COMPOUNDFLAG']
            spec['fl']['COMPOUNDFLAG'] = flag
            if src.pct(70):
                opt['MAXCPDSUGS'] = src.weighted([(3, 0), (3, 1), (3, 2), (1, 3), (1, 7)])
            wrong = wrong[:7]
            asked = [wrong]
            for _ in range(src.rng_int(2, 5)):
                texts = [item for item in sgen.edits_of(wrong, src.pick(['swap', 'extra', 'forgot', 'bad', 'words']), spec)
                         if len(''.join(item)) > 1]
                if texts:
                    text = ''.join(src.pick(texts))
                    cut = src.rng_int(1, len(text) - 1)
                    for part in (text[:cut], text[cut:]):
                        words.add(part, [flag, *sgen.with_marks(src, spec, 6)])
            if len(wrong) > 1 and src.one_in(3):
                # a correction by a table leaves no room for compounds
                src.pick([gen_rep, gen_map])(src, spec, words, wrong, alphabet)
        elif mode == 'dash':
            other = src.word(alphabet, 1, 4)
            if src.pct(80):
                words.add(other, sgen.with_marks(src, spec, 6))
            pieces = [wrong, other] if src.coin() else [other, wrong]
            if src.one_in(3):
                pieces.insert(src.n(3), src.word(alphabet, 0, 3))
            wrong = '-'.join(pieces)
            asked = [wrong]
            if src.one_in(4):
                words.add(sgen.far_edits(src, wrong, alphabet))
            if src.one_in(4):
                spec['break'] = []
        elif mode == 'similar':
            for _ in range(src.rng_int(3, 9)):
                words.add(sgen.far_edits(src, sgen.far_edits(src, wrong, alphabet), alphabet), sgen.with_marks(src, spec))
            if src.one_in(3) and alphabet not in ("abn'",):
                spec['phone'] = [[src.pick(alphabet).upper(), src.pick(alphabet).upper()] for _ in range(src.rng_int(1, 4))]
        if src.pct(60):
            opt['MAXNGRAMSUGS'] = src.weighted([(2, 0), (4, 1), (3, 2), (2, 3), (1, 8)])
        if src.one_in(4):
            opt['NOSPLITSUGS'] = True
        if src.one_in(6):
            # different corrections may become equal
            for pattern in dict.fromkeys(src.pick(alphabet) for _ in range(src.rng_int(1, 2))):
                spec['oconv'].append([pattern, src.pick(alphabet)])
        if src.one_in(4):
            asked.append(sgen.recased(src, wrong, 1))
        return {'spec': spec, 'words': asked}

    def run(self, case, ctx):
        spec = case['spec']
        model, dictionary = _suggest.prepare(ctx, spec)
        opt = spec['opt']
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            got = [text for text, _ in want]
            if len(set(got)) != len(got):
                raise Violation(f'suggest({word!r}) repeats itself: {got!r}')
            reasons = []
            if any(source == 'dashes' for _, source in want):
                reasons.append('dashed word corrected')
            if want and want[-1][1] == 'spaceword':
                reasons.append('phrase ends the list')
            for name, value in (('MAXCPDSUGS', 99), ('MAXNGRAMSUGS', 99), ('NOSPLITSUGS', False)):
                if opt.get(name, value) != value and self.changed(spec, dict(opt, **{name: value}), word, want):
                    reasons.append(f'{name} matters')
            if not model.dash_allowed() and self.changed(spec, dict(opt, TRY=opt.get('TRY', '') + '-'), word, want):
                reasons.append('dash not allowed matters')
            if len(want) >= 15:
                reasons.append('lists of 15 and more')
            if spec['oconv'] and len(_suggest.SuggestModel(dict(spec, oconv=[])).suggest(word)) > len(want):
                reasons.append('made equal by output conversion')
            for reason in reasons:
                ctx.count(reason)
            if reasons:
                ctx.nontrivial((spec, word))

    @staticmethod
    def changed(spec, opt, word, want):
        return _suggest.SuggestModel(dict(spec, opt=opt)).suggest(word) != want


CHECK = S04()
