"""The bundled dictionaries."""

from vlib import bundled, sgen
from vlib.engine import Check, Violation

_LOADED = {}

LETTERS = {'en_US': "abcdefghijklmnopqrstuvwxyz'", 'ru': 'абвгдежзийклмнопрстуфхцчшщъыьэюяё', 'sv_SE': 'abcdefghijklmnoprstuvyåäö'}


def loaded(name):
    """(spec, model, dictionary or what loading raised)"""
    if name not in _LOADED:
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        spec = bundled.read(name)
        try:
            dictionary = Dictionary.from_files(name)
        except Exception as exc:   # pylint: disable=broad-except
            dictionary = exc
        _LOADED[name] = (spec, bundled.BigModel(spec), dictionary)
    return _LOADED[name]


def one_edit(src, word, letters):
    pos = src.n(len(word))
    kind = src.pick(['replace', 'insert', 'remove', 'swap', 'double'])
    if kind == 'replace':
        return word[:pos] + src.pick(letters) + word[pos + 1:]
    if kind == 'insert':
        return word[:pos] + src.pick(letters) + word[pos:]
    if kind == 'remove' and len(word) > 1:
        return word[:pos] + word[pos + 1:]
    if kind == 'swap':
        return word[:pos] + word[pos + 1:pos + 2] + word[pos] + word[pos + 2:]
    return word[:pos] + word[pos:pos + 2] + word[pos:]


class B01(Check):
    id = 'B01'
    rule = ('a bundled dictionary with asked words both accepted and rejected, or a typo with suggestions; counted once per '
            'distinct words')
    assumptions = ['words of up to 18 letters']
    quick_n = 500
    thorough_n = 7000
    min_nontrivial = 2000

    def start_shard(self, shard, seed):
        for name in bundled.NAMES:
            loaded(name)

    def one_form(self, src, name, place=None):
        spec, model, _ = loaded(name)
        for _ in range(20):
            stem, flags, _ = src.pick(spec['words'])
            if place:
                flag = spec['fl'].get('COMPOUND' + place)
                rows = [row for kind in ('P', 'S') for row in model.rows[kind] if flag in row.flags and row.flag in flags]
                if flag not in flags and not rows:
                    continue
            forms = [text for text, *_ in model.chains(stem, frozenset(flags), place)]
            return src.pick(list(dict.fromkeys(forms)))
        return src.pick(spec['words'])[0]

    def wrong_affix(self, src, name):
        """An entry with an affix it may not have."""
        spec, model, _ = loaded(name)
        stem = src.pick(spec['words'])[0]
        row = src.pick(model.rows[src.pick(['P', 'S'] if spec['pfx'] else ['S'])])
        if row.kind == 'S':
            return stem[:len(stem) - len(row.strip)] + row.add
        return row.add + stem[len(row.strip):]

    def combined(self, src, name):
        """An entry with its own affixes, whether they may be combined (and fit) or not."""
        spec, model, _ = loaded(name)
        for _ in range(20):
            text, flags, _ = src.pick(spec['words'])
            rows = {kind: [row for row in model.rows[kind] if row.flag in flags] for kind in 'PS'}
            if rows['S'] and (rows['P'] or not spec['pfx']):
                break
        for kind in 'PS':
            if not rows[kind] or src.one_in(5):
                continue
            row = src.pick(rows[kind])
            if kind == 'P':
                text = row.add + (text[len(row.strip):] if text.startswith(row.strip) or src.one_in(4) else text)
            else:
                # usually a row that can be applied, whatever its condition says
                fitting = [one for one in rows[kind] if text.endswith(one.strip)]
                row = src.pick(fitting) if fitting and src.pct(80) else row
                text = text[:len(text) - len(row.strip)] + row.add
                more = [one for one in model.rows['S'] if one.flag in row.flags]
                if more and src.coin():
                    row = src.pick(more)
                    text = text[:len(text) - len(row.strip)] + row.add
        return text

    def one_word(self, src, name):
        letters = LETTERS[name]
        kind = src.weighted([(5, 'form'), (4, 'typo'), (3, 'affix'), (4, 'combined'), (2, 'case'), (2, 'joined'), (1, 'dash'), (1, 'number')])
        if kind == 'form':
            return self.one_form(src, name)
        if kind == 'typo':
            return sgen.far_edits(src, self.one_form(src, name), letters)
        if kind == 'affix':
            return self.wrong_affix(src, name)
        if kind == 'combined':
            return self.combined(src, name)
        if kind == 'case':
            word = self.one_form(src, name)
            return src.pick([word.upper(), word.capitalize(), word.swapcase(), word.lower(), word[:1] + word[1:].upper()])
        if kind == 'joined':
            if name == 'sv_SE':
                parts = [self.one_form(src, name, 'BEGIN'), self.one_form(src, name, 'END')]
                if src.one_in(3):
                    parts.insert(1, self.one_form(src, name, 'MIDDLE'))
                return ''.join(parts)
            return self.one_form(src, name) + self.one_form(src, name)
        if kind == 'dash':
            text = self.one_form(src, name) + src.pick(['-', '-', "'", '’', ':', '.', ' ']) + src.pick([self.one_form(src, name), ''])
            return text
        return str(src.n(3000)) + src.pick(['', 'st', 'nd', 'rd', 'th', 'a', ':e', '-a', '.5', 'th-st'])

    def gen(self, src):
        name = src.weighted([(2, 'en_US'), (1, 'ru'), (1, 'sv_SE')])
        words = [self.one_word(src, name) for _ in range(12)]
        words = [word for word in dict.fromkeys(words) if 0 < len(word) <= 18]
        ask = None
        if src.one_in(50 if name == 'en_US' else 100):
            ask = self.one_form(src, name)[:9]
            edit = sgen.far_edits if src.one_in(3) else one_edit
            ask = edit(src, ask, LETTERS[name])
            ask = src.weighted([(4, ask), (1, ask.capitalize()), (1, ask.upper())])
        return {'name': name, 'words': words, 'ask': ask}

    def run(self, case, ctx):
        _, model, dictionary = loaded(case['name'])
        if isinstance(dictionary, Exception):
            raise Violation(f"from_files({case['name']!r}) raised {type(dictionary).__name__}: {dictionary}")
        yes = no = 0
        for word in case['words']:
            got = ctx.sut(f'lookup({word!r})', dictionary.lookup, word)
            want = model.lookup(word)
            if got is not want:
                raise Violation(f"lookup({word!r}) returned {got!r}, the {case['name']} files say {want!r}")
            yes += want
            no += not want
        ctx.count(f"{case['name']} accepted", yes)
        ctx.count(f"{case['name']} rejected", no)
        given = 0
        if case['ask'] is not None:
            word = case['ask']
            want = model.suggest(word)
            got = ctx.sut(f'suggest({word!r})', lambda: list(dictionary.suggest(word)))
            if got != [text for text, _ in want]:
                raise Violation(f"suggest({word!r}) returned {got!r}, the {case['name']} files say {want!r}")
            ctx.count(f"{case['name']} asked for suggestions")
            for _, source in want:
                ctx.count(f'suggestions by {source}')
            given = len(want)
        for table in model._tables.values():    # keep the memory bounded
            if len(table.built) > 20000:
                table.built.clear()
                table.known.clear()
        if len(model._memo) > 200000:
            model._memo.clear()
        if (yes and no) or given:
            ctx.nontrivial(case)


CHECK = B01()
