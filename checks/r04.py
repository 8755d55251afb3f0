"""Directives of the .aff file."""

import os

from vlib.engine import Check, Violation

FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
         'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
         'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
BOOLS = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
         'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
INTS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']
TEXTS = ['KEY', 'TRY', 'WORDCHARS', 'LANG']
OUTDATED = {'NEEDAFFIX': 'PSEUDOROOT', 'COMPOUNDEND': 'COMPOUNDLAST'}
TABLES = ['BREAK', 'REP', 'ICONV', 'OCONV', 'MAP', 'COMPOUNDRULE', 'CHECKCOMPOUNDPATTERN', 'PHONE', 'AM',
          'COMPOUNDSYLLABLE']

DEFAULT = {
    'SET': 'Windows-1252', 'FLAG': 'short', 'KEY': 'qwertyuiop|asdfghjkl|zxcvbnm', 'TRY': '', 'WORDCHARS': None,
    'LANG': None, 'IGNORE': None, 'MAXDIFF': -1, 'MAXNGRAMSUGS': 4, 'MAXCPDSUGS': 3, 'COMPOUNDMIN': 3,
    'COMPOUNDWORDMAX': None, 'BREAK': ['-', '^-', '-$'], 'REP': [], 'ICONV': None, 'OCONV': None, 'MAP': [],
    'COMPOUNDRULE': [], 'CHECKCOMPOUNDPATTERN': [], 'PHONE': None, 'AF': {}, 'AM': {}, 'COMPOUNDSYLLABLE': None,
    'PFX': {}, 'SFX': {},
    **{name: None for name in FLAGS}, **{name: False for name in BOOLS},
}

NOISE = ['# comment', '# SFX A Y 1', '#TRY zzz', 'NAME Some dictionary', 'HOME http://example.org/', 'VERSION 12',
         'this is free text', 'try abc', 'Try abc', 'TRYS abc', 'sfx A Y 1', 'SFX_A Y 1', 'KEEP-CASE q', 'BREAKS 3',
         '0', '12 TRY', '-', '/', 'COMPOUNDMIN2 9', 'NEEDAFFIX2 z', 'flag long', 'XREP 2', 'X', 'MAP1 2', '\xe9t\xe9 TRY']

NAMES = {'short': 'ABCDExyz!?', 'UTF-8': 'ABCDЖщ\xe9xyz', 'long': ['AA', 'AB', 'Bb', 'zz', 'A1', '1A', '!!', '-+', 'xy', '12'],
         'num': ['1', '2', '10', '12', '100', '999', '1001', '65000', '7', '33']}


class R04(Check):
    id = 'R04'
    rule = 'an .aff file with at least five directives, one of them a table; counted once per distinct file'
    assumptions = ['SET, FLAG, AF and IGNORE come before the directives that depend on them',
                   'every directive (affix class) at most once']
    quick_n = 9000
    thorough_n = 15000
    min_nontrivial = 2000

    def gen(self, src):    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
        fmt = src.weighted([(3, 'short'), (2, 'long'), (2, 'num'), (1, 'UTF-8')])
        enc = 'UTF-8' if fmt == 'UTF-8' else src.weighted([(3, 'UTF-8'), (1, 'ISO8859-1'), (1, None)])
        names = NAMES[fmt]
        letters = 'abc\xe9\xfc' if enc != 'UTF-8' else src.pick(['abc\xe9', 'котa', 'aαβ', 'abcde'])

        def text(low=1, high=4):
            return src.word(letters, low, high * (4 if src.one_in(20) else 1))

        def amount(most):
            return src.rng_int(most, most * 6) if src.one_in(30) else src.length(0 if src.one_in(20) else 1, most, 60)

        def joined(flags):
            return (',' if fmt == 'num' else '').join(flags)

        head, blocks, want = [], [], {}
        set_line = []
        if enc and not (fmt == 'UTF-8' and src.coin()):
            set_line = [f'SET {enc}']
        if enc:
            want['SET'] = enc
        flag_line = []
        if fmt != 'short' or src.one_in(4):
            want['FLAG'] = fmt
            flag_line = [f'FLAG {fmt}']
        head += [set_line, flag_line] if src.coin() else [flag_line, set_line]
        head = [lines for lines in head if lines]
        early = []
        af = []
        if src.one_in(3):
            af = [src.sample(names, src.rng_int(1, 6 if src.one_in(6) else 3)) for _ in range(amount(11) + 1)]
            early.append([f'AF {len(af)}'] + [f'AF {joined(flags)}' for flags in af])
            want['AF'] = {str(idx + 1): sorted(flags) for idx, flags in enumerate(af)}
        ignore = ''
        if src.one_in(4):
            ignore = ''.join(src.sample("'-" + letters[-1], src.rng_int(1, 2)))
            early.append([f'IGNORE {ignore}'])
            want['IGNORE'] = ignore
        early = src.shuffled(early)

        for name in src.subset(FLAGS, 30):
            want[name] = src.pick(names)
            written = OUTDATED[name] if name in OUTDATED and src.coin() else name
            blocks.append([f'{written} {want[name]}'])
        for name in src.subset(BOOLS, 30):
            want[name] = True
            blocks.append([name + src.weighted([(5, ''), (1, ' 1'), (1, ' # on')])])
        for name in src.subset(INTS, 40):
            want[name] = src.rng_int(0 if name.startswith('MAX') else 1, src.pick([3, 12, 12, 1200]))
            blocks.append([f'{name} {want[name]}'])
        for name in src.subset(TEXTS, 40):
            want[name] = src.pick(['tr', 'tr_TR', 'az', 'de_DE', 'hu_HU', 'crh', 'en', 'sv_SE']) if name == 'LANG' else text(1, 9)
            if name == 'KEY':
                want[name] += '|' + text(1, 5)
            blocks.append([f'{name} {want[name]}'])
        for name in src.subset(TABLES, 30):
            count = amount(5)
            rows = []
            if name == 'BREAK':
                vals = [src.pick(['-', '^-', '-$', "'", '.', '^a', 'b$', '--', '^--', '+', '*', '(', '\\']) for _ in range(count)]
                rows = vals
            elif name in ('REP', 'ICONV', 'OCONV'):
                vals = [[text(), text(1, 3)] for _ in range(count)]
                if name == 'REP':
                    for pair in vals:
                        if src.one_in(4):
                            pair[0] = src.pick(['^', '']) + pair[0] + src.pick(['$', ''])
                        if src.one_in(4):
                            pair[1] += '_' + text(1, 2)
                else:
                    vals = [[f'{a}{idx}', b] for idx, (a, b) in enumerate(vals)]
                rows = [f'{a} {b}' for a, b in vals]
            elif name == 'MAP':
                vals = [[src.pick(letters) if src.pct(70) else text(1, 3) for _ in range(src.rng_int(2, src.pick([4, 4, 9])))]
                        for _ in range(count)]
                rows = [''.join(part if len(part) == 1 and src.pct(90) else f'({part})' for part in row) for row in vals]
            elif name == 'COMPOUNDRULE':
                wrap = (lambda flag: f'({flag})') if fmt in ('long', 'num') else str
                use = [flag for flag in names if not set(flag) & set('*?()')]
                vals = [''.join(wrap(src.pick(use)) + src.pick(['', '*', '?']) for _ in range(src.rng_int(2, src.pick([4, 4, 9]))))
                        for _ in range(count)]
                rows = vals
            elif name == 'CHECKCOMPOUNDPATTERN':
                vals = []
                for _ in range(count):
                    row = [text(1, 2), src.pick(names) if src.coin() else '', text(1, 2), src.pick(names) if src.coin() else '']
                    rows.append(f"{row[0]}{'/' * bool(row[1])}{row[1]} {row[2]}{'/' * bool(row[3])}{row[3]}")
                    vals.append([*rows[-1].split(' '), text(1, 3) if src.one_in(3) else None])
                    rows[-1] += ' ' + vals[-1][2] if vals[-1][2] else ''
            elif name == 'PHONE':
                vals = [[src.word('ABCD', 1, 3), src.pick(['', 'A', 'BC', 'X'])] for _ in range(count)]
                rows = [f"{a} {b or '_'}" for a, b in vals]
            elif name == 'AM':
                vals = [[f"{src.pick(['po', 'is', 'st'])}:{text()}" for _ in range(src.rng_int(1, src.pick([3, 3, 6])))]
                        for _ in range(count)]
                rows = [' '.join(row) for row in vals]
                vals = {str(idx + 1): row for idx, row in enumerate(vals)}
            else:
                vals = [src.rng_int(1, 9), text(2, 5)]
                want[name] = vals
                blocks.append([f'{name} {vals[0]} {vals[1]}'])
                continue
            want[name] = vals
            note = src.pick([' # row', '\t#']) if name != 'AM' and name != 'CHECKCOMPOUNDPATTERN' and src.one_in(4) else ''
            blocks.append([f"{name} {count}{' # rows' * src.one_in(5)}"] + [f'{name} {row}{note}' for row in rows])
        for kind in ('PFX', 'SFX'):
            for flag in src.sample(names, src.weighted([(8, 0), (8, 1), (8, 3), (1, 8)])):
                cross = src.coin()
                rows, vals = [], []
                for _ in range(amount(4)):
                    strip = '' if src.coin() else src.weighted([(9, ''), (1, '0')]) + text(1, 3)
                    add = '' if src.one_in(4) else src.weighted([(9, ''), (1, '0')]) + text(1, 4)
                    cond = src.weighted([(2, ''), (2, '.'), (3, text(1, 2)), (2, f'[{text(1, 3)}]'), (2, f'[^{text(1, 3)}]{text(1, 1)}')])
                    flags = src.sample(names, src.weighted([(12, 0), (4, 1), (4, 2), (1, 6)]))
                    tail = ''
                    if af:
                        num = src.n(len(af) + 1)
                        flags = af[num - 1] if num else []
                        tail = f'/{num}' if num else ''
                    elif flags:
                        tail = '/' + joined(flags)
                    more = src.weighted([(5, ''), (1, ' po:noun'), (1, ' # why')]) if cond else ''
                    sep = src.weighted([(4, ' '), (1, '\t'), (1, '   ')])
                    rows.append(sep.join([kind, flag, strip or '0', (add or '0') + tail] + ([cond] if cond else [])) + more)
                    left = ''.join(char for char in add if char not in ignore)
                    left = '' if left == '0' else left
                    vals.append([strip, left, sorted(flags), cond])
                if vals:
                    want.setdefault(kind, {})[flag] = [cross, vals]
                blocks.append([f"{kind} {flag} {'Y' if cross else 'N'} {len(rows)}"] + rows)

        if src.one_in(3):
            # other white space between columns
            space = src.pick(['\t', '  ', ' \t', '\t\t', '\t  '])
            head, early, blocks = ([[line.replace(' ', space) for line in block] for block in part] for part in (head, early, blocks))
        mixed = src.shuffled(blocks)
        noise = [[src.pick(NOISE)] for _ in range(src.weighted([(2, 0), (2, 2), (1, 5)]))]
        spots = [[src.n(len(mixed) + 1), line] for line in noise]
        for pos, line in sorted(spots, key=lambda item: -item[0]):
            mixed.insert(pos, line)
        return {'lines': [line for block in head + early + mixed for line in block], 'want': want, 'enc': enc}

    def run(self, case, ctx):
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        base = os.path.join(ctx.fresh_dir(), 'd')
        enc = case['enc'] or 'windows-1252'
        with open(base + '.aff', 'wb') as out:
            out.write(('\n'.join(case['lines']) + '\n').encode(enc))
        with open(base + '.dic', 'wb') as out:
            out.write(b'1\nword\n')
        aff = ctx.sut('loading the dictionary', Dictionary.from_files, base).aff
        for name, default in DEFAULT.items():
            want = case['want'].get(name, default)
            got = read(aff, name)
            if got != want or (isinstance(want, bool) and got is not want):
                raise Violation(f"{name} is {got!r}, {'written' if name in case['want'] else 'default'}: {want!r}")
        ctx.count('directives', len(case['want']))
        ctx.count('affix classes', sum(len(case['want'].get(kind, {})) for kind in ('PFX', 'SFX')))
        if len(case['want']) >= 5 and any(name in case['want'] for name in TABLES + ['PFX', 'SFX', 'AF']):
            ctx.nontrivial(case['lines'])

    def describe(self, case):
        return '\n'.join(case['lines'])


def read(aff, name):
    """The setting as plain data."""
    value = getattr(aff, name)
    if value is None:
        return None
    if name == 'IGNORE':
        return value.chars
    if name == 'BREAK':
        return [item.pattern if not isinstance(item, str) else item for item in value]
    if name == 'REP':
        return [[item.pattern, item.replacement] for item in value]
    if name in ('ICONV', 'OCONV'):
        return [list(pair) for pair in value.pairs]
    if name == 'MAP':
        return [list(row) for row in value]
    if name == 'COMPOUNDRULE':
        return [item.text for item in value]
    if name == 'CHECKCOMPOUNDPATTERN':
        return [[item.left, item.right, item.replacement] for item in value]
    if name == 'PHONE':
        return [list(pair) for pair in value.table]
    if name == 'COMPOUNDSYLLABLE':
        return list(value)
    if name == 'AF':
        return {key: sorted(flags) for key, flags in value.items()}
    if name == 'AM':
        return {key: list(row) for key, row in value.items()}
    if name in ('PFX', 'SFX'):
        # tables without rows mean nothing
        value = {flag: rows for flag, rows in value.items() if rows}
        for flag, rows in value.items():
            if {(row.flag, row.crossproduct) for row in rows} != {(flag, rows[0].crossproduct)}:
                return f'mixed rows: {rows!r}'
        return {flag: [rows[0].crossproduct, [[row.strip, row.add, sorted(row.flags), row.condition] for row in rows]]
                for flag, rows in value.items()}
    return value


CHECK = R04()
