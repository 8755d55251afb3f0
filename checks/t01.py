"""Any string, any unrelated line."""

import unicodedata

from vlib import rich, sgen, spec as sp
from vlib.engine import Check, Violation

SPECIAL = ['', ' ', '  ', '\t', '\n', '.', '-', '--', '-a', 'a-', "'", '_', '0', '1', '1.5', '1.', '.5', '1-2', '/', '\\', '\\/',
           '^', '$', '*', '?', '+', '(', ')', '[', ']', '{', '}', '|', '(a', 'a)', '[a', 'a|b', '\x00', '\x7f', '\x85', '\xa0',
           '\xad', '​', '‍', ' ', '﻿', '�', '￿', '\U0010ffff', '\ud800', '\udcff', 'ß', 'ẞ', 'SS', 'ss',
           'İ', 'ı', 'i̇', 'ŉ', 'ǰ', 'ΐ', 'ﬁ', 'ﬀ', 'ŀ', 'Σ', 'ς', 'ΑΣ', 'ǅ', 'ǆ', 'Ǆ', 'Ω', 'Å', 'K', 'µ', 'ſ', 'ᾳ', 'ᾼ', 'ა', 'Ა', 'Ꭰ', 'ꭰ',
           '½', '²', '٣', '১', '漢字', '한', '𐐀', '𐐨', '🙂', '👨‍👩‍👧', 'é', '́', '́a', 'אב', 'ﷺ', 'Ⅷ', 'ⓐ', 'Ⓐ', 'ª', 'ʰ']


def odd_char(src):
    kind = src.weighted([(4, 'special'), (2, 'bmp'), (1, 'astral'), (1, 'latin')])
    if kind == 'special':
        return src.pick(SPECIAL)
    if kind == 'latin':
        return chr(src.n(0x250))
    if kind == 'bmp':
        return chr(src.n(0x10000))
    return chr(src.rng_int(0x10000, 0x1ffff))


def odd_string(src, words, alphabet):
    """A string of pieces: dictionary forms, letters of the dictionary, anything."""
    res = ''
    for _ in range(src.length(1, 5, 55)):
        kind = src.weighted([(3, 'odd'), (2, 'word'), (3, 'letters'), (1, 'digits')])
        if kind == 'odd':
            res += odd_char(src)
        elif kind == 'word':
            word = src.pick(words)
            res += src.pick([word, word.upper(), word.title(), word.swapcase(), unicodedata.normalize('NFD', word)])
        elif kind == 'letters':
            res += sgen.recased(src, src.word(alphabet, 1, 3), 2)
        else:
            res += str(src.n(200))
    return res


def text_line(src):
    """One line of anything."""
    res = ''
    for _ in range(src.length(1, 6, 70)):
        res += src.weighted([(3, odd_char(src)), (2, src.word('abcXYZ', 1, 4)), (2, ' '), (1, '\t'), (1, '#'), (1, ':'), (1, '/')])
    return ''.join(char for char in res if char not in '\r\n')


class T01(Check):
    id = 'T01'
    rule = ('a dictionary asked about strings with characters not used in it, at least one of which has suggestions; counted '
            'once per distinct dictionary and strings')
    assumptions = ['with IGNORE or affixes that strip and add nothing, the empty string may be a form of some word',
                   'a .dic line names no undefined flag alias', 'lone surrogates are asked about, but not written to the files']
    quick_n = 1000
    thorough_n = 6000
    min_nontrivial = 1500

    def gen(self, src):
        sharp = src.one_in(6)
        turkic = not sharp and src.one_in(6)
        alphabet = 'asß' if sharp else src.pick(['iıa', 'ai']) if turkic else None
        case = rich.dictionary(src, alphabet=alphabet)
        spec = case['spec']
        if sharp and src.coin():
            spec['opt']['CHECKSHARPS'] = True
        if turkic and src.coin():
            spec['opt']['LANG'] = src.pick(['tr', 'az'])
        if src.one_in(5):
            spec['opt']['TRY'] = spec['opt'].get('TRY', '') + src.pick("-'.ßİ(")
        if src.one_in(6):
            spec['opt']['IGNORE'] = src.pick(['-', "'", '́', '0'] + ['a'] * (not spec['map'] and 'COMPOUNDMIN' not in spec['opt']))
        if src.one_in(6):
            spec['opt']['COMPLEXPREFIXES'] = True
        letters = ''.join(sorted({char for word in case['words'] for char in word})) or 'a'
        limit = rich.longest_asked(spec)
        case['strings'] = [odd_string(src, case['words'], letters)[:2 * limit] for _ in range(src.rng_int(2, 6))]
        case['strings'] = list(dict.fromkeys(case['strings'] + src.sample(SPECIAL, 2)))
        case['suggest'] = [word[:limit] for word in case['strings'][:4]] + case['ask'][:1]
        case['aff_lines'] = [line for line in (text_line(src) for _ in range(src.n(4))) if unrelated(line)]
        case['dic_lines'] = [line for line in (text_line(src) for _ in range(src.n(4))) if line.strip() and '\ud800' not in line]
        case['dic_lines'] = [line for line in case['dic_lines'] if encodable(line)]
        case['words'] = []
        return case

    def run(self, case, ctx):
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        spec = case['spec']
        base = sp.write(spec, ctx.fresh_dir(), {'noise': [[pos * 3, line] for pos, line in enumerate(case['aff_lines'])]})
        with open(base + '.dic', 'ab') as out:
            for line in case['dic_lines']:
                out.write(line.encode('utf-8') + b'\n')
        dictionary = ctx.sut('loading the dictionary', Dictionary.from_files, base)
        shown = 0
        hollow = 'IGNORE' in spec['opt'] or any(strip and not add for kind in ('pfx', 'sfx') for _, _, rows in spec[kind] for strip, add, _, _ in rows)
        for word in case['strings']:
            got = ctx.sut(f'lookup({word!r})', dictionary.lookup, word)
            if not isinstance(got, bool):
                raise Violation(f'lookup({word!r}) returned {got!r}')
        for word in case['suggest']:
            got = ctx.sut(f'suggest({word!r})', lambda text=word: list(dictionary.suggest(text)))
            if not all(isinstance(item, str) and (item or hollow) for item in got):
                raise Violation(f'suggest({word!r}) returned {got!r}')
            shown += bool(got)
            ctx.count('asked for suggestions')
            ctx.count('with suggestions', bool(got))
        ctx.count('free text lines', len(case['aff_lines']) + len(case['dic_lines']))
        known = {char for stem, _, _ in spec['words'] for char in stem}
        if shown and any(set(word) - known for word in case['strings']):
            ctx.nontrivial((spec, case['strings']))


def encodable(line):
    try:
        line.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True


def unrelated(line):
    """Not one of the directives (their names are capital ASCII letters)."""
    first = line.split(' ')[0].split('\t')[0]
    return bool(line.strip()) and encodable(line) and not (first.isascii() and first.isalpha() and first.isupper())


CHECK = T01()
