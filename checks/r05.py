"""Asking the loaded word list for entries by spelling and by flag."""

from vlib import sgen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model

NAMES = {'short': 'ABCxyz1', 'UTF-8': 'ABЖщ\xe9y1', 'long': ['AA', 'AB', 'Bb', 'zz', 'A1', '1A', '!!'],
         'num': ['1', '2', '10', '12', '100', '65000', '7']}
FLAGS = 'ABCDEFG'


class R05(Check):
    id = 'R05'
    rule = ('a word list in which some spelling has several entries with different flags and some capitalised entry is found '
            'ignoring case; counted once per distinct word list')
    assumptions = ['spellings asked ignoring case are already in lower case']
    quick_n = 6000
    thorough_n = 30000
    min_nontrivial = 2000

    def gen(self, src):
        spec = sp.empty()
        alphabet = src.pick(['ab', 'abc', 'a\xe9', 'ко', 'iıa', 's\xdfa', 'σςa'])
        fmt = src.weighted([(3, 'short'), (1, 'long'), (1, 'num'), (1, 'UTF-8')])
        style = {'flag': fmt, 'af': src.one_in(4), 'flagmap': dict(zip(FLAGS, NAMES[fmt]))}
        if 'i' in alphabet and src.coin():
            spec['opt']['LANG'] = src.pick(['tr', 'tr_TR', 'az', 'crh'])
        if '\xdf' in alphabet and src.coin():
            spec['opt']['CHECKSHARPS'] = True
        if src.one_in(6):
            spec['opt']['IGNORE'] = 'q'
        stems = [src.word(alphabet, 1, 4) for _ in range(src.rng_int(1, 4))]
        for _ in range(src.rng_int(20, 80) if src.one_in(30) else src.length(1, 9, 60)):
            stem = sgen.recased(src, src.pick(stems) if src.n(4) else src.word(alphabet, 1, 4), 2)
            if 'IGNORE' in spec['opt'] and src.one_in(3):
                pos = src.n(len(stem) + 1)
                stem = stem[:pos] + 'q' + stem[pos:]
            if src.one_in(8):
                stem += src.pick([' ', '-', "'"]) + src.word(alphabet, 1, 2)
            spec['words'].append([stem, src.sample(FLAGS[:4], src.weighted([(3, 0), (3, 1), (2, 2), (1, 4)])), []])
        return {'spec': spec, 'style': style, 'absent': [sgen.recased(src, src.word(alphabet, 1, 5), 2) for _ in range(3)]}

    def run(self, case, ctx):
        spec, style = case['spec'], case['style']
        dic = sp.load(ctx, spec, style).dic
        model = Model(spec)
        place = {id(word): idx for idx, word in enumerate(dic.words)}
        names = style['flagmap']

        def found(stem, **kwargs):
            words = ctx.sut('homonyms', dic.homonyms, stem, **kwargs)
            return [place.get(id(word), word) for word in words]

        several = folded = False
        stems = dict.fromkeys([*model.by_stem, *model.by_lower, *case['absent']])
        for stem in list(stems):
            stems.update(dict.fromkeys([stem.lower(), stem.upper(), stem.capitalize(), stem[:-1], stem + ' ']))
        for stem in stems:
            same = [idx for idx, entry in enumerate(model.entries) if entry.stem == stem]
            if found(stem) != same:
                raise Violation(f'entries spelled {stem!r} are number {found(stem)!r} of the list, should be {same!r}')
            flags = [{names[flag] for flag in model.entries[idx].flags} for idx in same]
            for flag in names.values():
                have = [flag in one for one in flags]
                for for_all, right in ((False, any(have)), (True, bool(have) and all(have))):
                    got = ctx.sut('has_flag', dic.has_flag, stem, flag, for_all=for_all)
                    if got is not right:
                        raise Violation(f'{"all" if for_all else "any"} entries of {stem!r} have flag {flag!r}: {got!r}, '
                                        f'the entries have {flags!r}')
                if ctx.sut('has_flag', dic.has_flag, stem, flag) is not any(have):
                    raise Violation(f'without for_all, has_flag({stem!r}, {flag!r}) is not about any entry: they have {flags!r}')
            several = several or len({frozenset(one) for one in flags}) > 1
            if stem not in model.case.lower(stem):
                continue
            same = [idx for idx, entry in enumerate(model.entries) if stem in model.case.lower(entry.stem)]
            if found(stem, ignorecase=True) != same:
                raise Violation(f'entries spelled {stem!r} ignoring case are number {found(stem, ignorecase=True)!r} of the list, '
                                f'should be {same!r}')
            folded = folded or any(model.entries[idx].stem != stem for idx in same)
        if [place.get(id(word)) for word in dic.words] != list(range(len(spec['words']))):
            raise Violation(f'the list has {len(dic.words)} entries after the questions, written: {len(spec["words"])}')
        ctx.count('entries', len(spec['words']))
        ctx.count('questions', len(stems))
        if several and folded:
            ctx.nontrivial(spec['words'])


CHECK = R05()
