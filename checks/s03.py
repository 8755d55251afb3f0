"""REP, ph: and MAP."""

from vlib import gen, sgen
from vlib.engine import Check
from checks import _suggest


def piece(src, word, longest=3):
    size = min(len(word), src.rng_int(1, longest))
    pos = src.n(len(word) - size + 1)
    return pos, word[pos:pos + size]


def gen_rep(src, spec, words, wrong, alphabet):
    """A row of REP (or a ph: field) that changes the misspelling, and usually a word for the result."""
    pos, old = piece(src, wrong)
    if src.one_in(10):
        old = src.pick(['.', '*', '[' + old + ']', old + '?', '(' + old, old + '+'])
    new = src.word(alphabet, 0, 3)
    if src.one_in(5):
        cut = src.n(len(new) + 1)
        new = new[:cut] + '_' + new[cut:]
        for _ in range(src.weighted([(6, 0), (2, 1), (1, 2)])):
            cut = src.n(len(new) + 1)
            new = new[:cut] + '_' + new[cut:]
    if new in ('', old):
        new = '_' if src.one_in(3) else new + src.pick(alphabet)
    anchor = src.weighted([(6, ''), (2, '^'), (2, '$'), (1, '^$')])
    if '^' in anchor and src.pct(70):
        pos, old = 0, wrong[:len(old)]
    if '$' in anchor and src.pct(70):
        pos, old = len(wrong) - len(old), wrong[len(wrong) - len(old):]
    if anchor == '^$' and src.pct(70):
        pos, old = 0, wrong
    pattern = ('^' if '^' in anchor else '') + old + ('$' if '$' in anchor else '')
    spec['rep'].append([pattern, new])
    if src.pct(75):
        text = (wrong[:pos] + new.replace('_', ' ') + wrong[pos + len(old):]).strip()
        if ' ' in text and src.coin():
            for part in text.split():
                if not src.one_in(8):
                    words.add(part, sgen.with_marks(src, spec))
        elif text:
            words.add(text, sgen.with_marks(src, spec))


def gen_ph(src, spec, words, wrong, alphabet):
    kind = src.n(4)
    stem = sgen.far_edits(src, wrong, alphabet)
    if kind == 0:
        words.add(stem, sgen.with_marks(src, spec), [['ph', wrong]])
    elif kind == 1 and len(wrong) >= 3:
        # the form with * : the last letter of both may be anything
        cut = src.rng_int(2, len(wrong) - 1)
        words.add(stem, sgen.with_marks(src, spec), [['ph', wrong[:cut] + src.pick(alphabet) + '*']])
        words.add((stem[:-1] + wrong[cut:]) or 'a')
    elif kind == 2:
        pos, old = piece(src, wrong)
        new = src.word(alphabet, 1, 3)
        words.add(stem, sgen.with_marks(src, spec), [['ph', old + '->' + new]])
        if src.pct(70):
            words.add(wrong[:pos] + new + wrong[pos + len(old):])
    else:
        _, old = piece(src, wrong)
        words.add(stem, sgen.with_marks(src, spec), [['ph', old], ['po', 'noun'], ['ph', wrong]])


def gen_map(src, spec, words, wrong, alphabet, many=False):
    members = [src.pick(wrong)]
    for _ in range(src.weighted([(4, 1), (4, 2), (2, 5)] if many else [(1, 1), (1, 2)])):
        members.append(src.word(alphabet, 2, src.pick([2, 2, 5])) if src.one_in(4) else src.pick(alphabet + 'xy\xe4'))
    if src.one_in(4):
        members[0] = piece(src, wrong, 2)[1]
    members = src.shuffled(list(dict.fromkeys(members)))
    if len(members) < 2:
        return
    spec['map'].append(members)
    # replace some occurrences, from the first on
    text, start = wrong, 0
    for _ in range(src.rng_int(1, 3)):
        places = [(text.find(member, start), member) for member in members if text.find(member, start) != -1]
        if not places:
            break
        pos, member = src.pick(places)
        other = src.pick([other for other in members if other != member])
        text = text[:pos] + other + text[pos + len(member):]
        start = pos + len(other)
    if src.pct(80):
        words.add(text, sgen.with_marks(src, spec))


class S03(Check):
    id = 'S03'
    rule = ('a dictionary and a misspelling with at least one suggestion through REP, ph: or MAP; counted once per distinct '
            'dictionary and misspelling')
    assumptions = ['MAP: as in the documented example only the first occurrence is replaced at each step, so occurrences '
                   'are never skipped', 'misspellings of at most 7 letters']
    quick_n = 2700
    thorough_n = 9000
    min_nontrivial = 1000

    def gen(self, src):
        spec = sgen.empty()
        alphabet = src.pick(['abcd', 'abc', 'asdf', 'eiou', 'abs\xdf', 'котя', 'ab.+'])
        if src.pct(60):
            sgen.settings(src, alphabet, spec)
        wrong = src.word(alphabet, 1, 3) if src.one_in(8) else src.word(alphabet, 3, 6)
        if src.one_in(4):
            sgen.special_flags(src, spec)
        words = sgen.Words(src, spec, alphabet)
        short = len(wrong) < 5 and src.one_in(4)
        for _ in range(src.rng_int(6, 14) if src.one_in(12) else src.length(1, 5, 65)):
            kind = src.weighted([(5, gen_rep), (4, gen_ph), (3, gen_map if len(spec['map']) < (4 if short else 2) else gen_rep)])
            if kind is gen_map:
                gen_map(src, spec, words, wrong, alphabet, many=short and not spec['map'])
            else:
                kind(src, spec, words, wrong, alphabet)
        for _ in range(src.length(0, 4, 60)):
            if src.coin():
                texts = sgen.edits_of(wrong, src.pick(sgen.KINDS), spec)
                for part in (src.pick(texts) if texts else ()):
                    words.add(part, sgen.with_marks(src, spec))
            else:
                words.add(sgen.far_edits(src, wrong, alphabet), sgen.with_marks(src, spec))
        if not short and src.one_in(5):
            self.gen_compounds(src, spec, wrong)
        if src.one_in(3):
            spec['opt']['MAXNGRAMSUGS'] = src.n(3)
        spec['rep'][:0] = [[text, text[::-1]] for text in gen.idle(src)]
        spec['map'][:0] = [[text, text[::-1]] for text in gen.idle(src, most=40)]
        return {'spec': spec, 'words': [sgen.recased(src, wrong, 6), sgen.far_edits(src, wrong, alphabet)[:5 if short else 7]]}

    @staticmethod
    def gen_compounds(src, spec, wrong):
        """Corrections that are compounds, by a table or by another edit."""
        spec['fl']['COMPOUNDFLAG'] = 'z'
        spec['opt']['COMPOUNDMIN'] = src.rng_int(1, 2)
        whole = [word[0] for word in spec['words'] if len(word[0]) > 1]
        whole += [text for [text] in sgen.edits_of(wrong, src.pick(['swap', 'extra', 'bad', 'move']), spec) if len(text) > 1]
        for word in spec['words']:
            word[1] += ['z'] if src.coin() else []
        for _ in range(src.rng_int(1, 3) if whole else 0):
            text = src.pick(whole)
            cut = src.rng_int(1, len(text) - 1)
            if src.coin():
                spec['words'] = [word for word in spec['words'] if word[0] != text]
            spec['words'] += [[part, ['z'], []] for part in (text[:cut].strip(), text[cut:].strip())
                              if part and part[0] not in '/#']

    def run(self, case, ctx):
        model, dictionary = _suggest.prepare(ctx, case['spec'])
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            if any(source in ('replchars', 'mapchars') for _, source in want):
                ctx.nontrivial((case['spec'], word))
                ctx.count('lists with a table suggestion')


CHECK = S03()
