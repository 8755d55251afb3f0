"""Generators of dictionaries (specs) and of words to ask about."""

import itertools

from vlib.spec import empty

ALPHABETS = ['ab', 'abc', 'abc', 'ab\xe9', 'ob\'', 'ab.', 'кот', 'a+b', 'abcd', 'a-b', 'a(b', 'a$|', 'a*b', 'a?{']

SFX_FLAGS = 'ABCDE'
PFX_FLAGS = 'PQRST'


def gen_cond(src, alphabet, stems, kind, big=False):
    """Affix condition: anything documented; mostly one that fits some stem."""
    size = src.weighted([(3, -1), (3, 0), (6, 1), (5, 2), (1, 3)])
    if size == -1:
        return ''
    if size == 0:
        return '.'
    if big and src.coin():
        size = src.rng_int(3, 12 if src.one_in(6) else 6)
    fit = src.pick(stems) if stems and src.pct(70) else ''
    if kind == 'S':
        fit = fit[-size:]
    items = []
    for idx in range(size):
        char = fit[idx] if idx < len(fit) else src.pick(alphabet)
        form = src.weighted([(5, 'char'), (2, 'any'), (4, 'set'), (4, 'not')])
        if char in '[].^' and form == 'char':
            form = 'any'
        if form == 'char':
            items.append(char)
        elif form == 'any':
            items.append('.')
        else:
            others = [ch for ch in alphabet if ch not in '[]^']
            chosen = src.sample(others, src.rng_int(1, 4 if big else 3 if '-' in others else 2))
            items.append(('[' if form == 'set' else '[^') + ''.join(chosen) + ']')
    return ''.join(items)


def gen_row(src, alphabet, stems, kind, flags, big=False):
    fit = src.pick(stems) if stems and src.pct(75) else src.word(alphabet, 1, 2)
    size = src.weighted([(6, 0), (5, 1), (2, 2)]) if not big else src.n(14 if src.one_in(6) else 7)
    strip = '' if not size else (fit[-size:] if kind == 'S' else fit[:size])
    if src.one_in(12):
        strip = src.word(alphabet, 1, 2)
    add = src.word(alphabet, 0, 2) if src.pct(92) else src.word(alphabet, 3, 3)
    if not strip and not add and src.pct(70):
        add = src.pick(alphabet)
    cond = gen_cond(src, alphabet, stems, kind, big)
    if strip and src.coin():
        # the usual way: the condition repeats what is stripped
        cond = ''.join('.' if ch in '[]^' else ch for ch in strip) if src.coin() else cond
    return [strip, add, flags, cond]


def gen_stems(src, alphabet, low, high, longest=4):
    res = []
    for _ in range(src.length(low, high, 75)):
        if res and src.one_in(7):
            res.append(src.pick(res))                       # homonym
        elif res and src.one_in(4):
            base = src.pick(res)
            res.append((base + src.word(alphabet, 1, 1)) if src.coin() else (src.pick(alphabet) + base))
        else:
            res.append(src.word(alphabet, 1, longest))
    return res


def idle(src, chance=40, mark='¤', most=270):
    """Texts that fit nothing, for rows in front of those that matter: tables as long as in real dictionaries. Mostly none."""
    if not src.one_in(chance):
        return []
    count = min(src.pick([17, 40, 70, 130, 270]), most)
    return [mark + ''.join('vwxyz'[num // 5 ** pos % 5] for pos in range(4)) for num in range(count)]


def gen_affixed(src, *, alphabet=None, special=('NEEDAFFIX', 'CIRCUMFIX'), complexp=True, words=(2, 7), longest=4):
    """A dictionary with affixes."""
    alphabet = alphabet or src.pick(ALPHABETS)
    spec = empty()
    big = src.one_in(5)     # longer stems and affixes, more rows
    if big:
        longest = 18 if src.one_in(4) else 9
    stems = gen_stems(src, alphabet, *words, longest=longest)
    n_sfx = src.weighted([(1, 0), (4, 1), (5, 2), (3, 3)]) if not big else src.n(6)
    n_pfx = src.weighted([(3, 0), (4, 1), (3, 2)]) if not big else src.n(6)
    sfx, pfx = SFX_FLAGS[:n_sfx], PFX_FLAGS[:n_pfx]
    if complexp and src.one_in(4):
        spec['opt']['COMPLEXPREFIXES'] = True
    if src.one_in(12):
        spec['opt']['FULLSTRIP'] = True
    marks = []
    for name, letter in zip(special, 'nc'):
        if src.one_in(3):
            spec['fl'][name] = letter
            marks.append(letter)
    rowflags = [*sfx, *pfx, *marks]
    for kind, names, key in (('P', pfx, 'pfx'), ('S', sfx, 'sfx')):
        for flag in names:
            rows = []
            for _ in range(src.length(1, 24 if src.one_in(8) else 8, 85) if big else src.length(1, 3, 45)):
                flags = []
                for other in rowflags:
                    if other == flag:
                        if src.one_in(12):
                            flags.append(other)
                    elif src.one_in(4):
                        flags.append(other)
                rows.append(gen_row(src, alphabet, stems, kind, flags, big and src.coin()))
                if big and src.one_in(3):
                    rows[-1][1] = src.word(alphabet, 2, 24 if src.one_in(4) else 6)
            if src.one_in(40):
                rows = []
            elif big:
                rows[:0] = [['', text, [], text[0]] for text in idle(src)]
            spec[key].append([flag, src.pct(70), rows])
    for stem in stems:
        flags = [flag for flag in [*sfx, *pfx] if src.pct(55)]
        for mark in marks:
            if src.one_in(5):
                flags.append(mark)
        spec['words'].append([stem, flags, []])
    return spec, alphabet


def loose_forms(spec, limit=400):
    """Texts obtained from stems by any affixes at all, ignoring flags and conditions (near misses included)."""
    stems = list(dict.fromkeys(stem for stem, _, _ in spec['words']))
    sfx = [(row[0], row[1]) for _, _, rows in spec['sfx'] for row in rows if row[3] != '¤']
    pfx = [(row[0], row[1]) for _, _, rows in spec['pfx'] for row in rows if row[3] != '¤']
    res = dict.fromkeys(stems)

    def add_s(text, row):
        if text.endswith(row[0]):
            yield text[:len(text) - len(row[0])] + row[1]
        yield text + row[1]

    def add_p(text, row):
        if text.startswith(row[0]):
            yield row[1] + text[len(row[0]):]
        yield row[1] + text

    level = stems
    ends = dict.fromkeys(stems)
    for _ in range(3):
        nxt = {}
        for text, row in itertools.product(level, sfx):
            nxt.update(dict.fromkeys(add_s(text, row)))
        level = list(nxt)
        if len(level) > limit:
            level = level[::len(level) // limit + 1]
        ends.update(dict.fromkeys(level))
        res.update(dict.fromkeys(level))
    level = list(ends)
    for _ in range(2):
        nxt = {}
        for text, row in itertools.product(level, pfx):
            nxt.update(dict.fromkeys(add_p(text, row)))
        level = list(nxt)
        if len(level) > limit:
            level = level[::len(level) // limit + 1]
        res.update(dict.fromkeys(level))
    return [text for text in res if text]


def thin(items, limit):
    items = list(items)
    if len(items) <= limit:
        return items
    step = len(items) / limit
    return [items[int(idx * step)] for idx in range(limit)]


def all_words(alphabet, longest):
    for size in range(1, longest + 1):
        for letters in itertools.product(alphabet, repeat=size):
            yield ''.join(letters)


def near(word, alphabet):
    """One-letter changes of the word."""
    for pos in range(len(word) + 1):
        for char in alphabet:
            yield word[:pos] + char + word[pos:]
            if pos < len(word) and word[pos] != char:
                yield word[:pos] + char + word[pos + 1:]
        if pos < len(word) and len(word) > 1:
            yield word[:pos] + word[pos + 1:]


# -- compounds ---------------------------------------------------------------------------------------------------------

COMPOUND_FLAGS = {'COMPOUNDFLAG': 'z', 'COMPOUNDBEGIN': 'x', 'COMPOUNDMIDDLE': 'y', 'COMPOUNDEND': 'w'}


def gen_compound(src, *, alphabet=None, affixes=True, restrictions=False, rules=False, forbidden=False):    # pylint: disable=too-many-branches
    """A dictionary with compounding by flags (or by rules)."""
    alphabet = alphabet or src.pick(['ab', 'ab', 'abc', 'abc', 'ab\xf6', 'abcd'])
    spec = empty()
    opt, flg = spec['opt'], spec['fl']
    least = src.weighted([(4, 1), (5, 2), (3, None), (1, 3), (1, 4)])
    if least is not None:
        # less than one letter means one
        opt['COMPOUNDMIN'] = 0 if least == 1 and src.one_in(8) else least
    size = least or 3
    if src.one_in(3):
        opt['COMPOUNDWORDMAX'] = src.rng_int(2, 4)
    stems = []
    for _ in range(src.length(2, 6, 75)):
        if stems and src.one_in(6):
            stems.append(src.pick(list(dict.fromkeys(stems))))
        elif src.one_in(5):
            stems.append(src.word(alphabet, 1, size + 2))
        else:
            stems.append(src.word(alphabet, size, size + 1))
    if src.one_in(6):
        stems += [src.pick(stems)] * src.rng_int(1, 4)
    stems = [stem for idx, stem in enumerate(stems) if stems[:idx].count(stem) < 4]
    places = []
    if not rules:
        mode = src.weighted([(4, 'any'), (5, 'places'), (2, 'both'), (1, 'begin only')])
        names = {'any': ['COMPOUNDFLAG'], 'places': ['COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND'],
                 'both': list(COMPOUND_FLAGS), 'begin only': ['COMPOUNDBEGIN', 'COMPOUNDEND']}[mode]
        for name in names:
            flg[name] = COMPOUND_FLAGS[name]
            places.append(COMPOUND_FLAGS[name])
    extra = []
    if src.one_in(3):
        flg['ONLYINCOMPOUND'] = 'o'
        extra.append('o')
    sfx = pfx = deep = ''
    if affixes:
        if src.pct(60):
            flg['COMPOUNDPERMITFLAG'] = 'p'
        if src.pct(40):
            flg['COMPOUNDFORBIDFLAG'] = 'f'
        if src.one_in(6):
            flg['NEEDAFFIX'] = 'n'
        if src.one_in(8):
            flg['CIRCUMFIX'] = 'c'
        sfx = SFX_FLAGS[:src.weighted([(3, 0), (5, 1), (3, 2)])]
        pfx = PFX_FLAGS[:src.weighted([(4, 0), (4, 1), (1, 2)])]
        if src.one_in(10):
            opt['COMPLEXPREFIXES'] = True
        # one affix on top of another
        deep = src.weighted([(10, ''), (1, pfx), (1, sfx)])
        if deep and deep == pfx:
            deep = pfx = PFX_FLAGS[:2]
            opt['COMPLEXPREFIXES'] = True
        elif deep:
            deep = sfx = SFX_FLAGS[:2]
    marks = [flg[name] for name in ('COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'NEEDAFFIX', 'CIRCUMFIX') if name in flg]
    for kind, names, key in (('P', pfx, 'pfx'), ('S', sfx, 'sfx')):
        for flag in names:
            rows = []
            for _ in range(src.length(1, 3, 40)):
                flags = []
                for other in [*sfx, *pfx, *places, *extra]:
                    if other != flag and src.one_in(2 if flag in deep and other in deep else 5):
                        flags.append(other)
                for other in marks:
                    if src.one_in(2 if other == 'p' else 5):
                        flags.append(other)
                rows.append(gen_row(src, alphabet, stems, kind, flags))
            spec[key].append([flag, src.pct(75), rows])
    if restrictions:
        gen_restrictions(src, spec, alphabet, stems, places)
    if 'FORCEUCASE' in flg:
        # text stripped by a prefix would come back in lower case before a capital: no meaning defined
        for _, _, rows in spec['pfx']:
            for row in rows:
                row[0] = ''
    if forbidden:
        flg['FORBIDDENWORD'] = 'u'
    if rules:
        gen_rules(src, spec)
    rule_flags = list(dict.fromkeys(flag for rule in spec['crule'] for flag, _ in rule))
    for stem in stems:
        flags = [flag for flag in [*sfx, *pfx] if src.pct(55)]
        flags += [flag for flag in places if src.pct(60)]
        flags += [flag for flag in rule_flags if src.pct(45)]
        flags += [flag for flag in extra if src.one_in(4)]
        for name, percent in (('NEEDAFFIX', 15), ('COMPOUNDFORBIDFLAG', 12), ('FORCEUCASE', 30), ('FORBIDDENWORD', 25)):
            if name in flg and src.pct(percent):
                flags.append(flg[name])
        for lflag in dict.fromkeys(f for row in spec['cpat'] for f in (row[1], row[3]) if f):
            if lflag not in flags and src.pct(50):
                flags.append(lflag)
        spec['words'].append([stem, flags, []])
    if restrictions and src.one_in(4):
        # a phrase of two stems
        spec['words'].append([src.pick(stems) + ' ' + src.pick(stems), [], []])
    if restrictions and opt.get('CHECKCOMPOUNDREP'):
        for _ in range(src.weighted([(5, 1), (2, 2), (1, 5)])):
            joined = src.pick(stems) + src.pick(stems)
            pos = src.n(len(joined))
            old = joined[pos:pos + src.rng_int(1, 3)]
            new = src.word(alphabet, 0, 2) or '_'
            if src.one_in(4):
                old = ('^' + old) if src.coin() else (old + '$')
            spec['rep'].append([old, new])
            body = old.strip('^$')
            if src.pct(70):
                spec['words'].append([(joined[:pos] + new.replace('_', ' ') + joined[pos + len(body):]).strip() or 'a', [], []])
    return spec, alphabet


def gen_rules(src, spec, longest=4):
    letters = 'KLMN'[:src.rng_int(1, 4)]
    for _ in range(src.rng_int(4, 9) if src.one_in(8) else src.length(1, 3, 40)):
        rule = [[src.pick(letters), src.weighted([(6, ''), (3, '*'), (3, '?')])] for _ in range(src.rng_int(1, longest))]
        spec['crule'].append(rule)


def gen_restrictions(src, spec, alphabet, stems, places):
    opt, flg = spec['opt'], spec['fl']
    kinds = ['CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
             'CHECKCOMPOUNDPATTERN', 'FORCEUCASE', 'COMPOUNDFORBIDFLAG']
    chosen = src.sample(kinds, src.weighted([(5, 1), (4, 2), (2, 3)]))
    if 'CHECKCOMPOUNDTRIPLE' in chosen and src.one_in(3):
        chosen.append('SIMPLIFIEDTRIPLE')
    for name in dict.fromkeys(chosen):
        if name in ('FORCEUCASE', 'COMPOUNDFORBIDFLAG'):
            flg[name] = {'FORCEUCASE': 'e', 'COMPOUNDFORBIDFLAG': 'f'}[name]
        elif name == 'CHECKCOMPOUNDPATTERN':
            for _ in range(src.weighted([(4, 1), (4, 2), (1, 6)])):
                row = []
                for side in range(2):
                    stem = src.pick(stems)
                    part = '0' if src.one_in(5) else (stem[-src.rng_int(1, 3):] if side == 0 else stem[:src.rng_int(1, 3)])
                    row += [part, src.pick('gh') if src.one_in(4) else None]
                spec['cpat'].append(row)
        else:
            opt[name] = True
    if 'CHECKCOMPOUNDCASE' in chosen:
        for idx, stem in enumerate(stems):
            if src.one_in(4):
                pos = src.n(len(stem))
                stems[idx] = stem[:pos] + stem[pos].upper() + stem[pos + 1:]
        # a dash is exempt from the case restriction
        if src.one_in(4):
            stems.append(stems[0] + '-')
    if 'CHECKCOMPOUNDTRIPLE' in chosen or 'SIMPLIFIEDTRIPLE' in chosen:
        for idx, stem in enumerate(stems):
            if src.one_in(3):
                stems[idx] = stem[:-1] + stem[-1] * 2 if src.coin() else stem[0] + stem
    del alphabet, places


def compound_words(spec, pool, limit=160):
    """Words joined from the texts of the pool, and slightly damaged ones."""
    longest = longest_word(spec)
    pool = [text for text in dict.fromkeys(pool) if len(text) <= 6]
    pairs = [a + b for a in pool for b in pool if len(a + b) <= longest]
    res = dict.fromkeys(thin(pairs, limit))
    base = thin(pool, 7)
    triples = [a + b + c for a in base for b in base for c in base if len(a + b + c) <= longest]
    res.update(dict.fromkeys(thin(triples, limit // 2)))
    small = sorted(base, key=len)[:4]
    quads = [a + b + c + d for a in small for b in small for c in small for d in small if len(a + b + c + d) <= longest]
    res.update(dict.fromkeys(thin(quads, limit // 4)))
    fives = [a + b + c + d + a for a in small[:2] for b in small for c in small for d in small
             if len(a + b + c + d + a) <= longest]
    res.update(dict.fromkeys(thin(fives, limit // 8)))
    for left in base:
        for right in base:
            if left[-1:] == right[:1]:
                res[left + right[1:]] = None
    return [word for word in res if word and len(word) <= longest]


def chain_affixes(src, spec, places):
    """Affixes of one letter for parts of compounds, also on top of each other: their texts."""
    flg = spec['fl']
    if src.coin():
        flg['COMPOUNDFORBIDFLAG'] = 'f'
    if src.one_in(4):
        flg['NEEDAFFIX'] = 'n'
    if src.one_in(6):
        flg['CIRCUMFIX'] = 'c'
    if src.coin():
        spec['opt']['COMPLEXPREFIXES'] = True
    texts = []
    for key, names, letters in (('pfx', PFX_FLAGS[:src.n(3)], 'mno'), ('sfx', SFX_FLAGS[:src.n(4)], 'xyz')):
        texts.append([])
        for flag, letter in zip(names, letters):
            flags = [other for other in names if other != flag and src.coin()]
            flags += ['p'] if 'COMPOUNDPERMITFLAG' in flg and src.pct(60) else []
            flags += [flg[name] for name in ('COMPOUNDFORBIDFLAG', 'NEEDAFFIX', 'CIRCUMFIX') if name in flg and src.one_in(4)]
            flags += [place for place in places if src.one_in(6)]
            spec[key].append([flag, src.pct(75), [['', letter, flags, '']]])
            texts[-1].append(letter)
    return texts


def gen_chain(src, *, rules=False, restrictions=False):
    """
    A dictionary of parts that do not share letters, so that words of many parts can be split in few ways only, and words
    joined from them: (spec, words).
    """
    spec = empty()
    opt, flg = spec['opt'], spec['fl']
    stems = [first + (first * src.n(2) if src.one_in(4) else src.word(second, 0, 3))
             for first, second in src.sample(['ab', 'cd', 'ef', 'gh', 'ij', 'k-'], src.rng_int(2, 5))]
    if src.one_in(8):
        stems = [stem.upper() if src.one_in(3) else stem for stem in stems]
    opt['COMPOUNDMIN'] = src.weighted([(4, 1), (3, 2), (1, 3), (1, 4), (1, 0)])
    if src.coin():
        opt['COMPOUNDWORDMAX'] = src.rng_int(2, 9)
    places = []
    if not rules:
        for name in src.weighted([(3, ['COMPOUNDFLAG']), (3, ['COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND']),
                                  (1, list(COMPOUND_FLAGS))]):
            flg[name] = COMPOUND_FLAGS[name]
            places.append(COMPOUND_FLAGS[name])
        if src.one_in(3):
            flg['COMPOUNDPERMITFLAG'] = 'p'
    if restrictions:
        gen_restrictions(src, spec, '', stems, places)
        if opt.get('CHECKCOMPOUNDREP'):
            spec['rep'].append([src.pick(stems)[-1:], src.pick('xy')])
    if rules:
        gen_rules(src, spec, 8)
    rule_flags = list(dict.fromkeys(flag for rule in spec['crule'] for flag, _ in rule))
    heads, tails = [], []
    if not rules and src.coin():
        tails = [src.pick('xy')]
        spec['sfx'].append(['A', True, [['', tails[0], ['p'] if 'COMPOUNDPERMITFLAG' in flg and src.coin() else [], '']]])
    elif not rules and src.coin():
        heads, tails = chain_affixes(src, spec, places)
    affixes = [kind for key in ('pfx', 'sfx') for kind, _, _ in spec[key]]
    for stem in stems:
        flags = [flag for flag in places if src.pct(80)] + [flag for flag in rule_flags if src.pct(60)]
        flags += [flag for flag in affixes if src.coin()]
        for name, percent in (('COMPOUNDFORBIDFLAG', 20), ('FORCEUCASE', 40)):
            if name in flg and src.pct(percent):
                flags.append(flg[name])
        for flag in dict.fromkeys(f for row in spec['cpat'] for f in (row[1], row[3]) if f):
            if src.coin():
                flags.append(flag)
        spec['words'].append([stem, flags, []])
    words = []
    for _ in range(src.rng_int(6, 20)):
        parts = [src.pick(stems) for _ in range(src.rng_int(2, 9))]
        if src.coin():
            parts = [part for idx, part in enumerate(parts) if not idx or part != parts[idx - 1]]
        if tails and src.coin():
            pos = src.n(len(parts)) if src.coin() else len(parts) - 1
            parts[pos] += tails[0] if len(tails) < 2 else ''.join(src.sample(tails, src.rng_int(1, 2)))
        if heads and src.coin():
            pos = src.n(len(parts)) if src.coin() else 0
            parts[pos] = ''.join(src.sample(heads, src.rng_int(1, min(2, len(heads))))) + parts[pos]
        word = ''.join(parts)
        words.append(word)
        if src.one_in(6):
            pos = src.n(len(word))
            words.append(word[:pos] + src.pick(['x', '', word[pos] * 2]) + word[pos + 1:])
        if src.one_in(4):
            words.append(word[:1].upper() + word[1:])
    if restrictions and src.one_in(4):
        spec['words'].append([src.pick(stems) + ' ' + src.pick(stems), [], []])
    if opt.get('CHECKCOMPOUNDREP') and spec['rep'][0][0]:
        pair = src.pick(stems) + src.pick(stems)
        spec['words'].append([pair.replace(spec['rep'][0][0], spec['rep'][0][1], 1), [], []])
    return spec, [word for word in dict.fromkeys(words) if word]


def longest_word(spec):
    """Longest compound to ask about: the number of splits (and so the cost) grows exponentially with its parts."""
    least = max(1, spec['opt'].get('COMPOUNDMIN', 3))
    return {1: 5 if spec['sfx'] and spec['pfx'] else 6, 2: 9, 3: 12}.get(least, 14)


# -- letter case -------------------------------------------------------------------------------------------------------

def case_patterns(word, limit=40):
    """The word in various letter cases: all of them when short."""
    res = {word: None, word.lower(): None, word.upper(): None, word[:1].upper() + word[1:].lower(): None,
           word[:1].lower() + word[1:].upper(): None, word[:1].upper() + word[1:]: None,
           word[:1].lower() + word[1:]: None, word.swapcase(): None, word.title(): None}
    size = len(word)
    masks = range(2 ** size) if 2 ** size <= limit else [1 << pos for pos in range(size)] + \
        [(2 ** size - 1) ^ (1 << pos) for pos in range(size)]
    for mask in masks:
        res[''.join(ch.upper() if mask >> pos & 1 else ch.lower() for pos, ch in enumerate(word))] = None
        if 2 ** size > limit:
            res[''.join(ch.swapcase() if mask >> pos & 1 else ch for pos, ch in enumerate(word))] = None
    return [text for text in res if text]


def recase(src, word):
    """A stem in some letter case."""
    kind = src.weighted([(5, 'no'), (4, 'init'), (3, 'all'), (3, 'mixed')])
    if kind == 'init':
        return word[:1].upper() + word[1:]
    if kind == 'all':
        return word.upper()
    if kind == 'mixed':
        return ''.join(ch.upper() if src.coin() else ch for ch in word)
    return word
