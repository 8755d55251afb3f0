"""Encoding, container and layout of the files."""

from vlib import rich, spec as sp
from vlib.engine import Check, Violation
from vlib.smodel import SuggestModel

ENCODINGS = ['UTF-8', 'ISO8859-1', 'ISO8859-2', 'ISO8859-5', 'ISO8859-9', 'ISO8859-15', 'KOI8-R', 'KOI8-U', 'cp1251',
             'Windows-1250', 'iso-8859-7', 'ISO8859-3', 'ISO8859-6', 'ISO8859-8', 'ISO8859-10', 'ISO8859-13', 'ISO8859-14',
             'TIS620', None]
NOISE = ['# a comment', '#', '# SFX A Y 1', 'NAME Some dictionary', 'VERSION 1.2', 'HOME http://example.org/', 'free text here',
         'lower case', 'Set UTF-8', 'UNKNOWNDIRECTIVE', 'UNKNOWN a b c', '1234', '- - -', 'DIC 12 x', '/A', 'ONLYROOTX Z',
         'noSUGGEST A', '"quoted"', 'SFXX A Y 1', 'TRYTHIS abc']


class R02(Check):
    id = 'R02'
    rule = ('a dictionary stored in a way that differs from the plain one, with accepted and rejected words; counted once '
            'per distinct dictionary and way of storing')
    assumptions = ['SET, FLAG, IGNORE and AF precede what they affect', 'the word count, if any, is the first line']
    quick_n = 900
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):
        alphabet = src.pick(['abc', 'abcd', 'ab\xe9', 'a\xe4\xf6', 'кот', 'abč', 'αβγ', 'abı', 'a\xdfs', 'q漢a',
                             'abĉ', 'אבג', 'ابت', 'กขค', 'abŵ', 'abė'])
        case = rich.dictionary(src, alphabet=alphabet)
        spec = case['spec']
        if src.one_in(5):
            # an entry that looks like a word count at first
            first = src.pick(['1', '2', '30', '007']) + src.pick(['', '.', '-', "'", '/', '%']) + src.pick(alphabet)
            if not any(word[0] == first for word in spec['words']):
                spec['words'].insert(0, [first, [], []])
                case['words'] = [*case['words'], first, first[:-1], first[1:]]
        plain = '\n'.join('\n'.join(part) for part in sp.Render(spec, {}).texts())
        usable = [enc for enc in ENCODINGS if fits(plain, enc)]
        style = {'enc': src.pick(usable)}
        style['container'] = src.weighted([(4, 'files'), (3, 'zip'), (2, 'system')])
        if style['container'] == 'zip':
            style['zipdir'] = src.pick(['', '', 'dictionaries/', 'a/b/'])
            style['deflate'] = src.coin()
            style['zip_swap'] = src.coin()
        if style['container'] == 'system':
            style['folder'] = src.pick(['x', 'x.affs', 'a b', 'd\xe9'])
            # other dictionaries in the same folder
            style['siblings'] = src.sample(['d-', 'd1', 'd_US', 'D', 'ad', 'd d', 'a', 'd.old', '.d'], src.n(4))
        if style['enc'] in ('UTF-8', None):
            style['bom_aff'] = src.one_in(3)
            style['bom_dic'] = src.one_in(3)
        style['eol'] = src.weighted([(4, '\n'), (4, '\r\n'), (1, '\r')])
        style['trail'] = src.weighted([(4, ''), (2, ' '), (1, '  '), (1, '\t')])
        if src.one_in(3):
            style['blanks'] = src.rng_int(1, 4)
        style['count'] = src.weighted([(3, 'right'), (3, 'wrong'), (2, 'missing'), (2, 'padded')])
        style['final_eol'] = src.coin()
        style['noise'] = [[src.n(40), src.pick(NOISE)] for _ in range(src.length(0, 6, 60))]
        if src.one_in(3) and style['enc'] in ('UTF-8', 'KOI8-R', 'cp1251'):
            style['noise'].append([src.n(40), '# комментарий'])
        if src.one_in(3):
            # lines before the encoding is known
            usable = [text for text in [*NOISE, '', '', '# caf\xe9', '# комментарий', '# 漢字', '#' + ' long' * 2000]
                      if fits(text, style['enc'])]
            style['preface'] = [src.pick(usable) for _ in range(src.rng_int(1, 5))]
        if src.one_in(3):
            style['block_order'] = src.shuffled(range(14))
        if src.one_in(3):
            style['affix_order'] = src.shuffled(range(5))
        style['affixes_early'] = src.one_in(3)
        if src.one_in(4):
            style['tagsep'] = src.pick(['\t', '  ', ' \t'])
        case['style'] = style
        return case

    def run(self, case, ctx):
        spec, style = case['spec'], case['style']
        model = SuggestModel(spec)
        one = sp.load(ctx, spec)
        two = sp.load(ctx, spec, style)
        words, ask = case['words'], case['ask']
        first = rich.answers(ctx, one, words, ask)
        second = rich.answers(ctx, two, words, ask, ' in another layout')
        for key, value in first.items():
            if value != second[key]:
                raise Violation(f'{key[0]}({key[1]!r}) returned {value!r} in the plain layout and {second[key]!r} in {style!r}')
        yes = no = 0
        for word in words:
            want = model.lookup(word)
            if second['lookup', word] is not want:
                raise Violation(f'lookup({word!r}) returned {not want!r}, the dictionary says {want!r}')
            yes += want
            no += not want
        ctx.count(f"encoding {style['enc']}")
        ctx.count(f"container {style['container']}")
        ctx.count(f"line ends {style['eol']!r}")
        ctx.count(f"count {style['count']}")
        if yes and no:
            ctx.nontrivial((spec, style))


def fits(text, enc):
    try:
        text.encode(enc or 'Windows-1252')
    except UnicodeEncodeError:
        return False
    return True


CHECK = R02()
