"""Reported analyses."""

import itertools

from vlib import gen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model


def affix_key(affix):
    return (affix.flag, affix.strip, affix.add, tuple(sorted(affix.flags)))


def form_key(form, entry, affixes):
    """The order of two prefixes (suffixes) is not compared: their text decides it."""
    if entry is None:
        return (form.text,)
    return (form.text, form.stem, entry.stem, tuple(sorted(entry.flags)),
            *(tuple(sorted(affix_key(affix) for affix in pair if affix)) for pair in affixes))


def reported(form):
    if hasattr(form, 'parts'):
        return ('compound', tuple(reported(part)[1] for part in form.parts))
    return ('affix', form_key(form, form.in_dictionary, ((form.prefix, form.prefix2), (form.suffix, form.suffix2))))


def expected(kind, what):
    if kind == 'compound':
        return (kind, tuple(form_key(form, form.entry, ((form.p1, form.p2), (form.s1, form.s2))) for form in what))
    return (kind, form_key(what, what.entry, ((what.p1, what.p2), (what.s1, what.s2))))


def attached(form):
    """Affixes and stem from left to right; several lists if the affixes could be attached in several orders."""
    for prefixes in itertools.permutations([affix for affix in (form.prefix, form.prefix2) if affix]):
        for suffixes in itertools.permutations([affix for affix in (form.suffix, form.suffix2) if affix]):
            text = form.stem
            for affix in suffixes:
                text = text[:len(text) - len(affix.strip)] + affix.add
            for affix in prefixes:
                text = affix.add + text[len(affix.strip):]
            if text == form.text and all(pair[1].flag in pair[0].flags for pair in (prefixes, suffixes) if len(pair) == 2):
                yield [*map(repr, reversed(prefixes)), form.stem, *map(repr, suffixes)]


def in_order(text, pieces):
    pos = 0
    for piece in pieces:
        pos = text.find(piece, pos)
        if pos == -1:
            return False
        pos += len(piece)
    return True


class L02(Check):
    id = 'L02'
    rule = ('a dictionary with at least one word with two or more analyses or an analysis with two or more affixes or '
            'compound parts, and at least one word without any; counted once per distinct dictionary')
    assumptions = ['break points are switched off',
                   'parts of a compound made by a rule are compared by their text only']
    quick_n = 1800
    thorough_n = 6000
    min_nontrivial = 1000

    def gen(self, src):
        if src.coin():
            spec, alphabet = gen.gen_affixed(src)
            if src.one_in(3):
                if src.one_in(3):
                    spec['fl']['KEEPCASE'] = 'k'
                for word in spec['words']:
                    word[0] = gen.recase(src, word[0])
                    word[1] += ['k'] if 'KEEPCASE' in spec['fl'] and src.one_in(3) else []
        else:
            spec, alphabet = gen.gen_compound(src, restrictions=src.one_in(3), rules=src.one_in(4), affixes=src.pct(70))
        if src.one_in(6):
            # correct words like others, only not suggested
            spec['fl']['NOSUGGEST'] = 'G'
            for word in spec['words']:
                word[1] += ['G'] if src.one_in(3) else []
        spec['break'] = []
        return {'spec': spec, 'alphabet': alphabet}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        for place in (None, 'BEGIN', 'MIDDLE', 'END'):
            model.table(place)
        compounds = bool(spec['crule'] or set(spec['fl']) & {'COMPOUNDFLAG', 'COMPOUNDBEGIN'})
        words = dict.fromkeys(gen.thin(model.table(None), 90))
        words.update(dict.fromkeys(gen.thin(gen.loose_forms(spec, 60), 60)))
        words.update(dict.fromkeys(gen.all_words(alphabet[:2], 2)))
        most = 40
        if compounds:
            real = [text for place in ('BEGIN', 'MIDDLE', 'END') for text in model.table(place)]
            words.update(dict.fromkeys(gen.thin(gen.compound_words(spec, gen.thin(dict.fromkeys(real), 12), 60), 70)))
            most = gen.longest_word(spec)
        for word in gen.thin(words, 8):
            words[word.upper()] = None
            words[word[:1].upper() + word[1:]] = None
        rich = none = 0
        for word in words:
            if not word or len(word) > most:
                continue
            want = {expected(*item) for item in model.analyses(word)}
            forms = ctx.sut(f'good_forms({word!r})', lambda text=word: list(dictionary.lookuper.good_forms(text)))
            got = {reported(form) for form in forms}
            if got - want:
                raise Violation(f'analyses of {word!r} include the wrong {min(got - want)!r}')
            if want - got:
                raise Violation(f'analyses of {word!r} do not include {min(want - got)!r}')
            for form in forms:
                if hasattr(form, 'parts') or not (form.prefix or form.suffix):
                    continue
                # the affixes are shown after "="
                shown = repr(form).partition('=')[2]
                if not any(in_order(shown, pieces) for pieces in attached(form)):
                    raise Violation(f'an analysis of {word!r} is printed as {form!r}')
                ctx.count('printed analyses with two prefixes or two suffixes', bool(form.prefix2 or form.suffix2))
            answer = ctx.sut(f'lookup({word!r})', dictionary.lookup, word)
            if answer is not bool(got):
                raise Violation(f'lookup({word!r}) is {answer!r}, but the number of analyses is {len(got)}')
            none += not got
            ctx.count('words with one analysis', len(got) == 1)
            ctx.count('words with several analyses', len(got) > 1)
            rich += len(got) > 1 or any(kind == 'compound' or len(key) > 4 and len(key[4] + key[5]) > 1 for kind, key in got)
        ctx.count('words without analysis', none)
        if rich and none:
            ctx.nontrivial(spec)


CHECK = L02()
