"""Generators for the suggestion checks."""

from vlib import smodel
from vlib.gen import recase
from vlib.spec import empty

ALPHABETS = ['abcd', 'abcde', 'asdf', 'qwea', 'ab\xe9o', 'eiou', 'котя', 'abn\'', 'lmno']


def settings(src, alphabet, spec):
    """TRY and KEY."""
    opt = spec['opt']
    if src.pct(85):
        chars = src.shuffled(alphabet)[:src.rng_int(1, len(alphabet))]
        if src.one_in(4):
            chars.insert(src.n(len(chars) + 1), '-')
        if src.one_in(4):
            chars.insert(src.n(len(chars) + 1), 'a')
        if src.one_in(6):
            chars.append(alphabet[0].upper())
        if src.one_in(12):
            chars.append("'")
        if src.one_in(16):
            chars[src.n(len(chars) + 1):0] = 'esianrtolcdugmphbyfvkwqxz'[:src.rng_int(10, 25)]
        if src.one_in(60):
            chars[:0] = [chr(0x4e00 + num) for num in range(src.pick([20, 40, 70]))]
        opt['TRY'] = ''.join(dict.fromkeys(chars))
    if src.pct(60):
        rows = []
        for _ in range(src.rng_int(1, 3)):
            rows.append(''.join(src.pick(alphabet + 'xy') for _ in range(src.rng_int(1, 4))))
        opt['KEY'] = '|'.join(rows)


def misspelling(src, alphabet, longest=8):
    if src.one_in(16):
        longest += 6
    word = src.word(alphabet, 1, longest) if src.one_in(4) else src.word(alphabet, 3, 6)
    if src.one_in(4):
        pair = src.word(alphabet, 2, 2)
        pos = src.n(len(word) + 1)
        word = word[:pos] + pair + pair + word[pos:]
    return word


KINDS = ['swap', 'longswap', 'key', 'extra', 'forgot', 'move', 'bad', 'doubled', 'words', 'upper']


def edits_of(word, kind, spec):
    """Corrections of one kind; a list of words each."""
    tries = spec['opt'].get('TRY', '')
    key = spec['opt'].get('KEY', smodel.DEFAULT_KEY)
    if kind == 'words':
        return [[word[:pos], word[pos:]] for pos in range(1, len(word))]
    res = {'swap': lambda: smodel.swaps(word), 'longswap': lambda: smodel.long_swaps(word),
           'key': lambda: smodel.neighbour_keys(word, key), 'extra': lambda: smodel.removals(word),
           'forgot': lambda: smodel.insertions(word, tries), 'move': lambda: smodel.moves(word),
           'bad': lambda: smodel.replacements(word, tries), 'doubled': lambda: smodel.undoubled(word),
           'upper': lambda: [word.upper()]}[kind]()
    return [[text] for text in res if text and text != word]


def far_edits(src, word, alphabet):
    """Something slightly beyond the documented edits."""
    kind = src.n(5)
    if len(word) < 2 or kind == 0:
        return word + src.word(alphabet, 2, 2)
    chars = list(word)
    one = src.n(len(chars))
    two = src.n(len(chars))
    if kind == 1:
        chars[one], chars[two] = chars[two], chars[one]
    elif kind == 2:
        chars.insert(two, chars.pop(one))
    elif kind == 3:
        chars[one] = src.pick(alphabet)
        chars[two] = src.pick(alphabet)
    else:
        chars.insert(one, src.pick(alphabet))
        chars.insert(two, src.pick(alphabet))
    return ''.join(chars)


class Words:
    """Collects entries, sometimes with the end or start of the word made by an affix."""

    def __init__(self, src, spec, alphabet, affixes=True, prefixes=True):
        self.src = src
        self.spec = spec
        self.sfx = []
        self.pfx = []
        if affixes:
            for flag in 'AB'[:src.weighted([(4, 0), (4, 1), (2, 2)])]:
                rows = [['', add, [], '.'] for add in
                        dict.fromkeys(src.word(alphabet, 1, 2) for _ in range(src.rng_int(1, 2)))]
                if src.one_in(3):
                    strip = src.pick(alphabet)
                    rows.append([strip, src.word(alphabet, 0, 2), [], '' if strip in "'.+" else strip])
                spec['sfx'].append([flag, src.pct(80), rows])
                self.sfx += [(flag, row[1]) for row in rows if not row[0]]
            if prefixes and src.one_in(3):
                rows = [['', src.word(alphabet, 1, 2), [], '.']]
                spec['pfx'].append(['P', src.pct(80), rows])
                self.pfx = [('P', rows[0][1])]
        self.flags = [grp[0] for key in ('sfx', 'pfx') for grp in spec[key]]

    def add(self, text, flags=(), tags=()):
        src = self.src
        text = text.strip(' ')
        if not text or text[0] in '/#':
            return
        flags = list(flags)
        if src.one_in(3):
            for flag, add in self.sfx:
                if text.endswith(add) and len(text) > len(add) + 1:
                    text = text[:len(text) - len(add)]
                    flags.append(flag)
                    break
            else:
                for flag, add in self.pfx:
                    if text.startswith(add) and len(text) > len(add) + 1:
                        text = text[len(add):]
                        flags.append(flag)
        text = text.strip(' ')
        if src.one_in(4) and self.flags:
            flags.append(src.pick(self.flags))
        self.spec['words'].append([text, list(dict.fromkeys(flags)), [list(tag) for tag in tags]])


def special_flags(src, spec, names=('NOSUGGEST', 'FORBIDDENWORD', 'ONLYINCOMPOUND', 'NEEDAFFIX', 'KEEPCASE')):
    letters = dict(zip(('NOSUGGEST', 'FORBIDDENWORD', 'ONLYINCOMPOUND', 'NEEDAFFIX', 'KEEPCASE'), 'gfonk'))
    for name in names:
        if src.one_in(3):
            spec['fl'][name] = letters[name]


def with_marks(src, spec, chance=4):
    return [flag for flag in spec['fl'].values() if src.one_in(chance)]


def base(src, *, special=True, affixes=True, phrases=True, amount=(1, 7), kinds=None, alphabet=None):
    """A dictionary around a misspelling: (spec, misspelling, alphabet)."""
    spec = empty()
    alphabet = alphabet or src.pick(ALPHABETS)
    settings(src, alphabet, spec)
    wrong = misspelling(src, alphabet)
    if special and src.one_in(3):
        special_flags(src, spec)
    words = Words(src, spec, alphabet, affixes)
    for _ in range(src.length(*amount, 80)):
        texts = edits_of(wrong, src.pick(kinds or KINDS), spec)
        if not texts:
            continue
        parts = src.pick(texts)
        if len(parts) > 1 and phrases and src.one_in(6):
            words.add(src.pick(' -').join(parts), with_marks(src, spec))
            continue
        for part in parts:
            words.add(part, with_marks(src, spec))
    for _ in range(src.length(0, 3, 60)):
        words.add(far_edits(src, wrong, alphabet), with_marks(src, spec))
    return spec, wrong, alphabet


def recased(src, word, chance=4):
    return recase(src, word) if src.one_in(chance) else word
