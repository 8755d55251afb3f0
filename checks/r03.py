"""Lines of the .dic file."""

from vlib import sgen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model

TAGS = ['po', 'is', 'st', 'al', 'ts', 'ph', 'ds', 'PO', 'Xy', 'aB', 'жé']
VALUES = ['noun', 'x', 'a:b', 'a/b', '12', 'foo_bar', '[vn]', 'é', "o'", 'Abc']


def gen_stem(src, alphabet):
    text = src.word(alphabet, 1, 5)
    kind = src.weighted([(8, 'plain'), (3, 'space'), (3, 'slash'), (2, 'lead'), (2, 'mark'), (1, 'colon'), (1, 'digit'), (1, 'number')])
    other = src.word(alphabet, 1, 3)
    if kind == 'space':
        text += ' ' + other
        if src.one_in(3):
            text += ' ' + src.word(alphabet, 1, 2)
    elif kind == 'slash':
        text += '/' + other
        if src.one_in(3):
            text += '/' + src.word(alphabet, 1, 2)
    elif kind == 'lead':
        text = '/' + text
    elif kind == 'mark':
        pos = src.n(len(text) + 1)
        text = text[:pos] + src.pick("-'.,()&#") + text[pos:]
    elif kind == 'colon':
        text += ':' + other
    elif kind == 'digit':
        text = str(src.n(1000)) + text
    elif kind == 'number':
        text = str(src.n(1000)) + (' ' + other if src.one_in(3) else '')
    return sgen.recased(src, text, 2)


class R03(Check):
    id = 'R03'
    rule = ('a .dic file with at least one entry with flags and one with data fields, spaces or slashes; counted once per '
            'distinct file')
    assumptions = ['no flags after a stem that starts with a slash (it is a plain word)',
                   'a stem contains no two-letter tag with a colon after a space']
    quick_n = 12000
    thorough_n = 15000
    min_nontrivial = 2000

    def gen(self, src):
        spec = sp.empty()
        alphabet = src.pick(['abc', 'ab\xe9', 'кот', 'iıa', 'a\xdfs'])
        fmt = src.weighted([(3, 'short'), (2, 'long'), (2, 'num'), (1, 'UTF-8')])
        style = {'flag': fmt, 'count': src.pick(['right', 'wrong', 'padded', 'none'])}
        style['am_mixed'] = src.coin()
        style['junk'] = src.weighted([(3, ''), (1, ' noun'), (1, '\t# note'), (1, ' a:')])
        style['af'] = src.one_in(3)
        style['am'] = src.one_in(4)
        style['af_pad'] = src.weighted([(2, 0), (1, 10)])
        style['am_pad'] = src.weighted([(2, 0), (1, 10)])
        style['tagsep'] = src.pick([' ', '\t', '  ', '\t\t', ' \t'])
        names = {'short': 'ABCDExyz1!', 'UTF-8': 'ABCЖщ\xe9xyz1', 'long': ['AA', 'AB', 'Bb', 'zz', 'A1', '1A', '!!', '-+', 'xy', 'Zq'],
                 'num': ['1', '2', '10', '12', '100', '999', '1001', '65000', '7', '33']}[fmt]
        style['flagmap'] = dict(zip('ABCDEFGHIJ', names))
        if src.one_in(5):
            spec['opt']['IGNORE'] = src.pick(['x', "'", alphabet[-1]])
        if 'i' in alphabet and src.coin():
            spec['opt']['LANG'] = 'tr'
        if '\xdf' in alphabet and src.coin():
            spec['opt']['CHECKSHARPS'] = True
        for _ in range(src.rng_int(30, 120) if src.one_in(40) else src.length(1, 9, 80)):
            stem = gen_stem(src, alphabet)
            if not set(stem) - set(spec['opt'].get('IGNORE', '')):
                stem += 'b'
            flags = []
            if not stem.startswith('/'):
                flags = src.sample('ABCDEFGHIJ', src.weighted([(4, 0), (3, 1), (3, 2), (1, 5)]))
            tags = []
            for _ in range(src.weighted([(5, 0), (3, 1), (2, 2), (1, 4)])):
                tag = src.pick(TAGS)
                value = src.pick(VALUES)
                if tag == 'ph':
                    value = src.word(alphabet, 2, 5)
                    value += src.weighted([(6, ''), (1, 'c*'), (1, '->ab')])
                tags.append([tag, value])
            spec['words'].append([stem, flags, tags])
        if style['count'] == 'none' and spec['words'][0][0][0].isdigit():
            style['count'] = 'right'
        return {'spec': spec, 'style': style}

    def run(self, case, ctx):
        spec, style = case['spec'], case['style']
        dictionary = sp.load(ctx, spec, style)
        model = Model(spec)
        entries = list(dictionary.dic.words)
        if len(entries) != len(spec['words']):
            raise Violation(f"{len(entries)} entries were read, {len(spec['words'])} lines were written: "
                            f"{[word.stem for word in entries]!r}")
        names = style['flagmap']
        for got, want, (_, flags, tags) in zip(entries, model.entries, spec['words']):
            fields = {}
            for tag, value in tags:
                fields.setdefault(tag, []).append(value)
            alt = [value for value in fields.get('ph', []) if not value.endswith('*') and '->' not in value]
            seen = (got.stem, set(got.flags), {tag: list(values) for tag, values in got.data.items()}, got.captype.name,
                    list(got.alt_spellings))
            right = (want.stem, {names[flag] for flag in flags}, fields, want.case, alt)
            if seen != right:
                raise Violation(f'an entry was read as {seen!r}, written: {right!r}')
        rep = [(pat.pattern, pat.replacement) for pat in dictionary.aff.REP]
        if rep != model.rep:
            raise Violation(f'replacements made from ph: are {rep!r}, written: {model.rep!r}')
        for stem, same in model.by_stem.items():
            found = ctx.sut('homonyms', dictionary.dic.homonyms, stem)
            if [(word.stem, set(word.flags)) for word in found] != \
                    [(entry.stem, {names[flag] for flag in entry.flags}) for entry in same]:
                raise Violation(f'entries of {stem!r} are {found!r}')
        ctx.count('entries', len(entries))
        if any(flags for _, flags, _ in spec['words']) and \
                any(tags or ' ' in stem or '/' in stem for stem, _, tags in spec['words']):
            ctx.nontrivial(case)


CHECK = R03()
