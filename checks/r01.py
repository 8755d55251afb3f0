"""Flag notation and alias tables."""

import itertools
import string

from vlib import rich, spec as sp
from vlib.engine import Check, Violation
from vlib.smodel import SuggestModel


def flag_names(src, style, flags):
    """Other names of the flags, in the chosen notation."""
    if style['flag'] == 'short':
        pool = string.ascii_letters + '!@%&;<~.+[]{}^$|)' + ('' if style.get('af') else string.digits)
    elif style['flag'] == 'UTF-8':
        pool = 'АБВГДЕЖЗИКЛМНОПРСТабвгдежзиклмнопрст\xe9\xe8\xeaABCDEFabcdef€漢字'
    elif style['flag'] == 'long':
        chars = src.shuffled(string.ascii_letters + string.digits + '!-_.=+[^$\xe9')[:9]
        pool = [a + b for a, b in itertools.product(chars, chars) if not (a + b).isdigit() or not style.get('af')]
    else:
        start = src.pick([1, 1, 5, 97, 995, 65400])
        pool = [str(num) for num in range(start, start + 60)]
    return dict(zip(flags, src.sample(pool, len(flags))))


class R01(Check):
    id = 'R01'
    rule = ('a dictionary with flags written in a notation other than plain one-character flags, with both accepted and '
            'rejected words; counted once per distinct dictionary and notation')
    assumptions = ['with AF, sets of flags are written as aliases everywhere (an all-digit set is always an alias)']
    quick_n = 900
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):
        case = rich.dictionary(src)
        spec = case['spec']
        style = {'flag': src.weighted([(2, 'short'), (4, 'long'), (4, 'num'), (2, 'UTF-8')])}
        if src.coin():
            style['af'] = True
            style['af_pad'] = src.weighted([(3, 0), (2, 3), (2, 9), (1, 99)])
        if src.one_in(3):
            style['am'] = True
            style['am_pad'] = src.weighted([(3, 0), (2, 9), (1, 99)])
        style['flagmap'] = flag_names(src, style, sp.all_flags(dict(spec, words=[*spec['words'], ['', ['A'], []]])))
        case['style'] = style
        return case

    def run(self, case, ctx):
        spec, style = case['spec'], case['style']
        model = SuggestModel(spec)
        one = sp.load(ctx, spec)
        two = sp.load(ctx, spec, style)
        words, ask = case['words'], case['ask']
        first = rich.answers(ctx, one, words, ask)
        second = rich.answers(ctx, two, words, ask, ' with other flag notation')
        for key, value in first.items():
            if value != second[key]:
                raise Violation(f'{key[0]}({key[1]!r}) returned {value!r} with plain flags and {second[key]!r} with {style!r}')
        yes = no = 0
        for word in words:
            want = model.lookup(word)
            if second['lookup', word] is not want:
                raise Violation(f'lookup({word!r}) returned {not want!r}, the dictionary says {want!r}')
            yes += want
            no += not want
        entries = [(word.stem, sorted(word.flags), dict(word.data)) for word in two.dic.words]
        names = style['flagmap']
        for (stem, flags, data), (want, wflags, tags) in zip(entries, spec['words']):
            fields = {}
            for tag, value in tags:
                fields.setdefault(tag, []).append(value)
            if flags != sorted({names[flag] for flag in wflags}) or data != fields:
                raise Violation(f'entry {stem!r} was read as {flags!r} {data!r}, written: {want!r} '
                                f'{sorted(names[flag] for flag in wflags)!r} {fields!r}')
        ctx.count(f"notation {style['flag']}{' with AF' if style.get('af') else ''}{' with AM' if style.get('am') else ''}")
        if yes and no:
            ctx.nontrivial((spec, style))


CHECK = R01()
