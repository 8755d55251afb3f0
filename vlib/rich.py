"""Dictionaries mixing all features, with words to ask about: for checks that compare answers of two dictionaries."""

from vlib import gen, sgen
from vlib.model import Model

TAGS = [['po', 'noun'], ['is', 'plural'], ['st', 'x'], ['al', 'b'], ['ts', '0']]


def dictionary(src, *, alphabet=None, flags_only=False):
    """{'spec', 'words': for lookup, 'ask': for suggest}"""
    kind = src.weighted([(4, 'affix'), (3, 'compound'), (2, 'rules'), (4, 'suggest')])
    longest = 12
    if kind == 'affix':
        spec, alphabet = gen.gen_affixed(src, alphabet=alphabet or src.pick(['ab', 'abc', 'abcd', 'ab\xe9']))
    elif kind == 'suggest':
        spec, wrong, alphabet = sgen.base(src, alphabet=alphabet or src.pick(['abcd', 'abc', 'asdf', 'ab\xe9']))
    else:
        spec, alphabet = gen.gen_compound(src, alphabet=alphabet, restrictions=src.one_in(3), rules=kind == 'rules',
                                          forbidden=src.one_in(3))
        longest = gen.longest_word(spec)
    opt = spec['opt']
    if 'TRY' not in opt and src.coin():
        opt['TRY'] = alphabet
    if 'KEY' not in opt and src.one_in(3):
        opt['KEY'] = '|'.join(alphabet)
    if src.one_in(3):
        spec['break'] = src.sample(['-', '^-', '-$', '*', '--'], src.rng_int(0, 2))
    for name, letter in (('NOSUGGEST', 'G'), ('KEEPCASE', 'H'), ('FORBIDDENWORD', 'J')):
        if name not in spec['fl'] and src.one_in(4):
            spec['fl'][name] = letter
            for word in spec['words']:
                word[1] += [letter] if src.one_in(4) else []
    if not flags_only:
        extras(src, spec, alphabet)
    for word in spec['words']:
        if src.one_in(4):
            word[2] += [list(tag) for tag in src.sample(TAGS, src.rng_int(1, 3))]
        if src.one_in(8) and len(word[0]) > 1 and ' ' not in word[0]:
            word[2].append(['ph', sgen.far_edits(src, word[0], alphabet)])
    model = Model(spec)
    forms = gen.thin([text for text in model.table(None) if text and len(text) <= longest], 30)
    words = dict.fromkeys(forms)
    words.update(dict.fromkeys(gen.thin(gen.loose_forms(spec, 40), 20)))
    if longest != 12 or kind in ('compound', 'rules'):
        pool = [text for place in ('BEGIN', 'MIDDLE', 'END') for text in model.table(place)]
        words.update(dict.fromkeys(gen.thin(gen.compound_words(spec, gen.thin(dict.fromkeys([*pool, *model.by_stem]), 10), 40), 40)))
    words.update(dict.fromkeys(gen.all_words(alphabet[:2], 2)))
    for word in gen.thin(words, 6):
        words[word.upper()] = None
        words[word[:1].upper() + word[1:]] = None
        words[word + '-' + word] = None
    words = [word for word in words if word and len(word) <= 2 * longest]
    ask = [sgen.recased(src, sgen.far_edits(src, src.pick(forms or ['a']), alphabet), 4) for _ in range(2)]
    if kind == 'suggest':
        ask.append(wrong)
    ask = [word[:longest_asked(spec, longest)] for word in ask]
    return {'spec': spec, 'words': words, 'ask': [word for word in dict.fromkeys(ask) if word]}


def longest_asked(spec, longest=12):
    """Replacing by MAP tries all combinations: exponential in the length of the word."""
    compound = spec['crule'] or any(name.startswith('COMPOUND') for name in spec['fl'])
    return min(longest, (5 if compound else 6) if spec['map'] else 8 if compound else 10)


def extras(src, spec, alphabet):
    """Tables that have nothing to do with flags."""
    if src.one_in(4):
        spec['rep'] += [[src.word(alphabet, 1, 2), src.word(alphabet, 1, 2)] for _ in range(src.rng_int(1, 3))]
    if src.one_in(4):
        members = list(dict.fromkeys([*src.sample(alphabet, 2), src.word(alphabet, 2, 2)]))
        spec['map'].append(members)
    if src.one_in(5):
        seen = dict((src.word(alphabet + 'x', 1, 2), src.word(alphabet, 1, 2)) for _ in range(src.rng_int(1, 3)))
        spec[src.pick(['iconv', 'oconv'])] += [list(item) for item in seen.items()]
    if src.one_in(6):
        spec['opt']['MAXNGRAMSUGS'] = src.n(5)
    if src.one_in(8) and alphabet.isascii():
        spec['phone'] = [[src.pick(alphabet).upper(), src.pick(alphabet).upper()] for _ in range(src.rng_int(1, 3))]
    if src.one_in(10):
        spec['opt']['MAXDIFF'] = src.n(10)
    if src.one_in(10):
        spec['opt']['ONLYMAXDIFF'] = True


def answers(ctx, dic, words, ask, what=''):
    """All answers of the dictionary object."""
    res = {}
    for word in words:
        res['lookup', word] = ctx.sut(f'lookup({word!r}){what}', dic.lookup, word)
    for word in ask:
        res['suggest', word] = ctx.sut(f'suggest({word!r}){what}', lambda text=word: list(dic.suggest(text)))
    return res
