"""Input conversion and ignored characters."""

from vlib import gen, spec as sp
from vlib.engine import Check, Violation
from vlib.model import Model, convert
from checks._lookup import compare


class L10(Check):
    id = 'L10'
    rule = ('a dictionary with at least one word accepted only thanks to conversion or ignored characters and at least '
            'one word that conversion makes incorrect; counted once per distinct dictionary')
    assumptions = ['forbidden words are not used here (they are compared in their unconverted spelling)',
                   'no two conversion rows with the same text apart from anchors']
    quick_n = 1200
    thorough_n = 7000
    min_nontrivial = 1000

    def gen(self, src):
        alphabet = src.pick(['ab', 'abc', 'ab.', 'ab\'', 'кот', 'a+b', 'a(b'])
        spec, _ = gen.gen_affixed(src, alphabet=alphabet, words=(1, 5), special=(), complexp=False, longest=4)
        if src.coin():
            spec['break'] = []
        extra = src.pick(['xy', 'ẋ’', '[^', '́x', '$x', '|*'])
        ignore = ''
        if src.coin():
            ignore = ''.join(src.sample(extra, src.rng_int(1, 2)))
            if src.one_in(4):
                ignore += alphabet[-1]
            spec['opt']['IGNORE'] = ignore
            for entry in spec['words']:
                if src.one_in(3):
                    pos = src.n(len(entry[0]) + 1)
                    entry[0] = entry[0][:pos] + src.pick(ignore) + entry[0][pos:]
                if not set(entry[0]) - set(ignore):
                    entry[0] += alphabet[0]
            for key in ('sfx', 'pfx'):
                for _, _, rows in spec[key]:
                    for row in rows:
                        if src.one_in(3):
                            row[1] += src.pick(ignore)
                        if set(row[0] + row[3]) & set(ignore):
                            row[0], row[3] = '', ''
        if not ignore or src.coin():
            seen = set()
            for _ in range(src.rng_int(6, 14) if src.one_in(12) else src.length(1, 5, 65)):
                body = src.word(alphabet + extra, 1, 7 if src.one_in(12) else 3)
                if body in seen:
                    continue
                seen.add(body)
                mark = src.weighted([(8, ''), (2, '_.'), (2, '._'), (1, '_._')])
                pattern = {'': body, '_.': '_' + body, '._': body + '_', '_._': '_' + body + '_'}[mark]
                to = src.word(alphabet + extra, 1, 3) if src.pct(90) else '_'
                if src.one_in(8):
                    # conversion to a phrase
                    to = '_'.join([to.strip('_') or alphabet[0], *(src.word(alphabet, 1, 2) for _ in range(src.rng_int(1, 3)))])
                    phrase = to.replace('_', ' ') + (src.word(alphabet, 1, 2) if src.one_in(3) else '')
                    if src.pct(80) and not set(phrase) & set(ignore):
                        spec['words'].append([phrase, [], []])
                spec['iconv'].append([pattern, to])
            spec['iconv'][:0] = [[text, 'x'] for text in gen.idle(src)]
        return {'spec': spec, 'alphabet': alphabet, 'extra': extra, 'seed': [src.n(97) for _ in range(40)]}

    def run(self, case, ctx):
        spec, alphabet, extra = case['spec'], case['alphabet'], case['extra']
        model = Model(spec)
        dictionary = sp.load(ctx, spec)
        # the same dictionary without conversions: entries and affixes already cleaned
        plain = dict(spec, iconv=[], opt={k: v for k, v in spec['opt'].items() if k != 'IGNORE'},
                     words=[[model.clean(stem), flags, tags] for stem, flags, tags in spec['words']],
                     sfx=[[f, c, [[r[0], model.clean(r[1]), r[2], r[3]] for r in rows]] for f, c, rows in spec['sfx']],
                     pfx=[[f, c, [[r[0], model.clean(r[1]), r[2], r[3]] for r in rows]] for f, c, rows in spec['pfx']])
        other = sp.load(ctx, plain)
        plain_model = Model(plain)
        base = gen.thin(dict.fromkeys([*model.by_stem, *gen.thin(model.table(None), 20), *gen.thin(gen.loose_forms(plain), 10)]), 30)
        words = dict.fromkeys(base)
        bodies = [(row[0].replace('_', ''), row[1].replace('_', ' ')) for row in spec['iconv'] if row[0][0] != '¤']
        chars = list(dict.fromkeys(alphabet + extra))
        ignored = sorted(model.ignored)
        for num, word in enumerate(base):
            # undo conversions, put ignored characters in, damage
            for body, to in bodies:
                pos = word.find(to)
                if pos != -1:
                    words[word[:pos] + body + word[pos + len(to):]] = None
                    words[word.replace(to, body)] = None
                words[word + body] = None
                words[body + word] = None
            seed = case['seed'][num % len(case['seed'])]
            pos = seed % (len(word) + 1)
            for char in ignored:
                words[word[:pos] + char + word[pos:]] = None
                words[char + word + char] = None
            words[word[:pos] + chars[seed % len(chars)] + word[pos:]] = None
        words.update(dict.fromkeys(gen.all_words(''.join(chars)[:4], 2)))
        words.update(dict.fromkeys(body for body, _ in bodies))
        words = [word for word in words if word and word.count('-') < 6]
        accepted, rejected = compare(ctx, dictionary, model, words)
        for word in words:
            conv = model.clean(convert(spec['iconv'], word))
            one = dictionary.lookup(word)
            two = ctx.sut(f'lookup({conv!r})', other.lookup, conv)
            if one is not two:
                raise Violation(f'lookup({word!r}) returned {one!r}, but the converted text {conv!r} is {two!r} '
                                'in the dictionary without conversions')
        gained = [word for word in accepted if not plain_model.lookup(word)]
        lost = [word for word in rejected if plain_model.lookup(word)]
        ctx.count('accepted thanks to conversion', len(gained))
        ctx.count('rejected because of conversion', len(lost))
        if gained and rejected:
            ctx.nontrivial(spec)


CHECK = L10()
