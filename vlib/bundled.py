"""The dictionaries distributed with the package, read into specs, and a model that copes with their size."""

import os
import re

from vlib import spec as sp
from vlib.engine import REPO
from vlib.smodel import SuggestModel

FOLDER = os.path.join(str(REPO), 'spylls', 'hunspell', 'data')
NAMES = {'en_US': 'en/en_US', 'ru': 'ru/ru', 'sv_SE': 'sv/sv_SE'}
TABLES = {'REP': 'rep', 'ICONV': 'iconv', 'OCONV': 'oconv', 'PHONE': 'phone'}


def read(name):
    base = os.path.join(FOLDER, NAMES[name])
    with open(base + '.aff', 'rb') as src:
        raw = src.read()
    enc = re.search(rb'^SET\s+(\S+)', raw, re.M).group(1).decode()
    lines = [line.split() for line in raw.decode(enc).splitlines()]
    lines = [line for line in lines if line]
    spec = sp.empty()
    pos = 0
    while pos < len(lines):
        head, *rest = lines[pos]
        pos += 1
        if head in ('PFX', 'SFX'):
            rows = []
            for _, _, strip, add, *cond in lines[pos:pos + int(rest[2])]:
                add, _, flags = add.partition('/')
                rows.append(['' if strip == '0' else strip, '' if add == '0' else add, list(flags), cond[0] if cond else ''])
            pos += len(rows)
            spec[head.lower()].append([rest[0], rest[1] == 'Y', rows])
        elif head in TABLES:
            spec[TABLES[head]] = [row[1:3] for row in lines[pos:pos + int(rest[0])]]
            pos += int(rest[0])
        elif head == 'BREAK':
            spec['break'] = [row[1] for row in lines[pos:pos + int(rest[0])]]
            pos += int(rest[0])
        elif head == 'MAP':
            spec['map'] = [list(row[1]) for row in lines[pos:pos + int(rest[0])]]
            pos += int(rest[0])
        elif head == 'COMPOUNDRULE':
            spec['crule'] = [[[flag, quant] for flag, quant in re.findall(r'(.)([*?]?)', row[1])]
                             for row in lines[pos:pos + int(rest[0])]]
            pos += int(rest[0])
        elif head in sp.FLAG_DIRECTIVES:
            spec['fl'][head] = rest[0]
        elif head in sp.BOOL_DIRECTIVES:
            spec['opt'][head] = True
        elif head in sp.INT_DIRECTIVES:
            spec['opt'][head] = int(rest[0])
        elif head in sp.STR_DIRECTIVES:
            spec['opt'][head] = rest[0]
    with open(base + '.dic', 'rb') as src:
        text = src.read().decode(enc)
    for line in text.splitlines()[1:]:
        line = line.strip()
        if line:
            assert '\t' not in line and '\\/' not in line and not re.search(r' \w\w:', line), line
            stem, slash, flags = line.partition('/') if not line.startswith('/') else (line, '', '')
            assert '/' not in flags, line
            spec['words'].append([stem, list(flags), []])
    return spec


class _Lazy:
    """Forms with the given text, found by taking affixes off and generating the forms of what is left."""

    def __init__(self, model, pos):
        self.model = model
        self.pos = pos
        self.known = {}
        self.built = {}

    def get(self, word, default=()):
        if word not in self.known:
            self.known[word] = [form for stem in self.model.bases(word) for form in self.of_stem(stem).get(word, ())]
        return self.known[word] or default

    def of_stem(self, stem):
        if stem not in self.built:
            res = {}
            flags = self.model.stem_flags(stem, self.pos)
            if flags is not None:
                for text, *chain in self.model.chains(stem, flags, self.pos):
                    res.setdefault(text, []).append((stem, *chain))
            self.built[stem] = res
        return self.built[stem]


class BigModel(SuggestModel):
    def __init__(self, spec):
        super().__init__(spec)
        self.by_add = {'P': {}, 'S': {}}
        for kind in 'PS':
            for row in self.rows[kind]:
                self.by_add[kind].setdefault(row.add, set()).add(row.strip)
        self.longest = {kind: max(map(len, self.by_add[kind]), default=-1) for kind in 'PS'}

    def table(self, pos):
        if pos not in self._tables:
            self._tables[pos] = _Lazy(self, pos)
        return self._tables[pos]

    def stem_flags(self, stem, pos):
        found = list(self.by_stem.get(stem, ()))
        if pos is None:
            found += self.by_lower.get(stem, ())
        elif pos == 'BEGIN' and self.flag('FORCEUCASE') and stem[:1].isupper():
            low = stem[:1].lower() + stem[1:]
            if low == low.lower():
                found += self.by_stem.get(low, ())
        return frozenset().union(*(entry.flags for entry in found)) if found else None

    def bases(self, word):
        """Texts of which the word may be a form, dictionary words or not."""
        res = {word: None}
        for kind, levels in (('P', 2), ('S', 2)):
            level = list(res)
            for _ in range(levels):
                level = [base for text in level for base in self.without(kind, text) if base not in res]
                res.update(dict.fromkeys(level))
        return res

    def without(self, kind, text):
        for size in range(min(self.longest[kind], len(text)) + 1):
            add = text[:size] if kind == 'P' else text[len(text) - size:]
            for strip in self.by_add[kind].get(add, ()):
                yield strip + text[size:] if kind == 'P' else text[:len(text) - size] + strip
