"""Suggestions are real, suggestible words."""

from vlib import sgen
from vlib.engine import Check, Violation
from vlib.gen import COMPOUND_FLAGS
from checks import _suggest
from checks.s03 import gen_map, gen_ph, gen_rep


def pieces_fit(text, fits):
    """Is the text correct as a whole or as a phrase joined by spaces or dashes?"""
    if fits(text):
        return True
    return any(char in ' -' and 0 < pos < len(text) - 1 and pieces_fit(text[:pos], fits) and pieces_fit(text[pos + 1:], fits)
               for pos, char in enumerate(text))


class S01(Check):
    id = 'S01'
    rule = 'a dictionary and a misspelling with at least one suggestion; counted once per distinct dictionary and misspelling'
    assumptions = ['with special flags similarity and phonetic suggestions are switched off: as documented they do not '
                   'check flags of affixed forms', 'with special flags words with dashes are not asked about',
                   'with compounding or forbidden words all entries are in lower case: forms of capitalised ones may be '
                   'correct only in their own case']
    quick_n = 1800
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):     # pylint: disable=too-many-branches
        plain = src.pct(60)
        alphabet = src.pick(['abcd', 'abc', 'asdf', 'eiou', 'котя', 'abcde'])
        spec, wrong, alphabet = sgen.base(src, alphabet=alphabet, special=False, amount=(1, 6))
        wrong = wrong[:7]
        opt = spec['opt']
        if not plain:
            sgen.special_flags(src, spec, ('NOSUGGEST', 'FORBIDDENWORD', 'ONLYINCOMPOUND', 'NEEDAFFIX'))
            if not spec['fl']:
                spec['fl']['NOSUGGEST'] = 'g'
            for word in spec['words']:
                word[1] += sgen.with_marks(src, spec, 3)
            opt['MAXNGRAMSUGS'] = 0
        words = sgen.Words(src, spec, alphabet, affixes=False)
        if src.one_in(3):
            for _ in range(src.rng_int(1, 3)):
                src.pick([gen_rep, gen_ph, gen_map if len(spec['map']) < 2 else gen_rep])(src, spec, words, wrong, alphabet)
        if src.one_in(3):
            opt['COMPOUNDMIN'] = src.rng_int(1, 3)
            spec['fl']['COMPOUNDFLAG'] = COMPOUND_FLAGS['COMPOUNDFLAG']
            for word in spec['words']:
                word[1] += ['z'] if src.coin() else []
        for _ in range(src.rng_int(0, 6)):
            text = wrong
            for _ in range(src.rng_int(1, 3)):
                text = sgen.far_edits(src, text, alphabet)
            words.add(sgen.recased(src, text, 3), sgen.with_marks(src, spec, 3))
        if plain and src.one_in(5):
            spec['phone'] = [[src.pick(alphabet).upper(), src.pick(alphabet).upper()] for _ in range(src.rng_int(1, 4))]
        if plain and src.one_in(4):
            opt['MAXNGRAMSUGS'] = src.rng_int(1, 9)
        for word in list(spec['words']):
            # homonyms with other flags
            if not plain and src.one_in(4):
                spec['words'].append([word[0], sgen.with_marks(src, spec, 2), []])
        if 'COMPOUNDFLAG' in spec['fl'] or 'FORBIDDENWORD' in spec['fl']:
            for word in spec['words']:
                word[0] = word[0].lower()
        asked = [sgen.recased(src, wrong, 3), sgen.recased(src, sgen.far_edits(src, wrong, alphabet)[:8], 3)]
        if plain and src.one_in(4):
            asked.append(wrong + '-' + src.word(alphabet, 1, 4))
        return {'spec': spec, 'words': asked, 'plain': plain}

    def run(self, case, ctx):
        spec, plain = case['spec'], case['plain']
        model, dictionary = _suggest.prepare(ctx, spec)

        def fits(text):
            if not model.lookup(text, nosuggest=plain):
                pos = text.find(' ') + 1
                # "aNew": the capital inside the misspelling is kept after the space
                other = text[:pos] + text[pos:pos + 1].lower() + text[pos + 1:]
                return bool(pos) and other != text and fits(other)
            if not dictionary.lookup(text):
                raise Violation(f'lookup({text!r}) is False for a correct word')
            return True

        # an affix that replaces a whole stem by nothing makes the empty piece a word
        nothing = '' in model.table(None)
        for word in case['words']:
            got = _suggest.ask(ctx, dictionary, word)
            for text in got:
                if not pieces_fit(text.strip(' -') if nothing else text, fits):
                    raise Violation(f'suggest({word!r}) returned {got!r}: {text!r} is not a suggestible word')
                if model.is_forbidden(text):
                    raise Violation(f'suggest({word!r}) returned {got!r}: {text!r} is forbidden')
            ctx.count('suggestions', len(got))
            if got:
                ctx.count('plain lists' if plain else 'lists with special flags')
                ctx.nontrivial((spec, word))
                ctx.count('suggestions that are phrases', sum(' ' in text for text in got))
            if not plain:
                hidden = len(_suggest.SuggestModel(dict(spec, fl={k: v for k, v in spec['fl'].items()
                                                                   if k == 'COMPOUNDFLAG'})).suggest(word))
                ctx.count('lists that are longer without special flags', hidden > len(got))


CHECK = S01()
