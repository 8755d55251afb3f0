"""Reference model of suggestions, on top of the lookup model."""

from vlib.model import Model, NO, HUH, HUHINIT, convert, rep_results, cond_fits

DEFAULT_KEY = 'qwertyuiop|asdfghjkl|zxcvbnm'
MAX_EDITS = 15
GOOD_EDITS = ('spaceword', 'uppercase', 'replchars')


# -- edits of one word: every function lists candidates in the documented order ------------------------------------------

def swaps(word):
    for pos in range(len(word) - 1):
        yield word[:pos] + word[pos + 1] + word[pos] + word[pos + 2:]
    if len(word) == 4:
        yield word[1] + word[0] + word[3] + word[2]
    if len(word) == 5:
        yield word[1] + word[0] + word[2] + word[4] + word[3]
        yield word[0] + word[2] + word[1] + word[4] + word[3]


def long_swaps(word):
    for one in range(len(word)):
        for two in range(one + 2, one + 5):
            if two < len(word):
                chars = list(word)
                chars[one], chars[two] = chars[two], chars[one]
                yield ''.join(chars)


def neighbour_keys(word, layout):
    for pos, char in enumerate(word):
        if char.upper() != char:
            yield word[:pos] + char.upper() + word[pos + 1:]
        for key, other in enumerate(layout):
            if other != char:
                continue
            for near in (key - 1, key + 1):
                if 0 <= near < len(layout) and layout[near] != '|':
                    yield word[:pos] + layout[near] + word[pos + 1:]


def removals(word):
    if len(word) > 1:
        for pos in range(len(word)):
            yield word[:pos] + word[pos + 1:]


def insertions(word, letters):
    for char in letters:
        for pos in range(len(word) + 1):
            yield word[:pos] + char + word[pos:]


def moves(word):
    def moved(pos, dist):
        rest = word[:pos] + word[pos + 1:]
        return rest[:pos + dist] + word[pos] + rest[pos + dist:]
    for pos in range(len(word)):
        for dist in (2, 3, 4):
            if pos + dist < len(word):
                yield moved(pos, dist)
    for pos in range(len(word) - 1, -1, -1):
        for dist in (2, 3, 4):
            if pos - dist >= 0:
                yield moved(pos, -dist)


def replacements(word, letters):
    for char in letters:
        for pos in range(len(word) - 1, -1, -1):
            if word[pos] != char:
                yield word[:pos] + char + word[pos + 1:]


def undoubled(word):
    """vacacation -> vacation"""
    if len(word) < 5:
        return
    for start in range(len(word) - 3):
        if word[start:start + 2] == word[start + 2:start + 4]:
            yield word[:start + 2] + word[start + 4:]


def mapped(word, groups, start=0):
    """Similar characters, recursively from left to right."""
    if start >= len(word):
        return
    for group in groups:
        for member in group:
            pos = word.find(member, start)
            if pos == -1:
                continue
            for other in group:
                if other != member:
                    changed = word[:pos] + other + word[pos + len(member):]
                    yield changed
                    yield from mapped(changed, groups, pos + len(other))


# -- similarity ----------------------------------------------------------------------------------------------------------

def ngram(size, one, two, weighted=False, penalty=None):
    if not two:
        return 0
    total = 0
    for num in range(1, size + 1):
        grams = [one[pos:pos + num] for pos in range(len(one) - num + 1)]
        score = 0
        for pos, gram in enumerate(grams):
            if gram in two:
                score += 1
            elif weighted:
                score -= 2 if pos in (0, len(grams) - 1) else 1
        total += score
        if score < 2 and not weighted:
            break
    diff = len(two) - len(one)
    if penalty == 'any':
        diff = abs(diff)
    if penalty and diff > 2:
        total -= diff - 2
    return total


def common_start(one, two):
    num = 0
    while num < min(len(one), len(two)) and one[num] == two[num]:
        num += 1
    return num


def lcs(one, two):
    row = [0] * (len(two) + 1)
    for char in one:
        new = [0]
        for pos, other in enumerate(two):
            new.append(row[pos] + 1 if char == other else max(row[pos + 1], new[-1]))
        row = new
    return row[-1]


def root_score(word, stem):
    stem = stem.lower()
    return ngram(3, word, stem, penalty='longer') + common_start(word, stem)


def rough_score(word, form):
    return ngram(len(word), word, form, penalty='any') + common_start(word, form)


def precise_score(word, form, factor, base, phonetic):
    length = lcs(word, form)
    if len(word) == len(form) == length:
        return base + 2000
    score = 2 * length - abs(len(word) - len(form)) + common_start(word, form)
    if any(a == b for a, b in zip(word, form.lower())):
        score += 1
    score += ngram(4, word, form, penalty='any')
    bigrams = ngram(2, word, form, weighted=True, penalty='any') + ngram(2, form, word, weighted=True, penalty='any')
    score += bigrams
    if bigrams < (len(form) if phonetic else len(word) + len(form)) * factor:
        score -= 1000
    return score


def threshold(word):
    total = 0
    for start in (1, 2, 3):
        damaged = ''.join('*' if pos >= start and (pos - start) % 4 == 0 else ch for pos, ch in enumerate(word))
        total += ngram(len(word), word, damaged, penalty='any')
    return total // 3 - 1


# -- phonetic codes --------------------------------------------------------------------------------------------------------

def parse_phone(rule):
    """(items, look-ahead items, at start, at end): an item is a set of letters."""
    pos = 0
    items = []
    while pos < len(rule) and (rule[pos].isalpha() or rule[pos] == '_'):
        items.append({rule[pos]})
        pos += 1
    if pos < len(rule) and rule[pos] == '(':
        end = rule.index(')', pos)
        items.append(set(rule[pos + 1:end]))
        pos = end + 1
    ahead = 0
    while pos < len(rule) and rule[pos] == '-':
        ahead += 1
        pos += 1
    flags = rule[pos:]
    return items, ahead, '^' in flags, '$' in flags


def phonetic(table, word):
    word = word.upper()
    rows = [(parse_phone(rule), rule[0], to) for rule, to in table]
    res = ''
    pos = 0
    while pos < len(word):
        for (items, ahead, at_start, at_end), first, to in rows:
            if first != word[pos] or (at_start and pos):
                continue
            if pos + len(items) > len(word) or any(word[pos + num] not in item for num, item in enumerate(items)):
                continue
            used = len(items) - ahead
            if at_end and pos + used != len(word):
                continue
            res += '' if to == '_' else to
            pos += used
            break
        else:
            pos += 1
    return res


class SuggestModel(Model):
    def __init__(self, spec):
        super().__init__(spec)
        self.try_chars = self.opt.get('TRY', '')
        self.key = self.opt.get('KEY', DEFAULT_KEY)
        unusable = {flag for name in ('FORBIDDENWORD', 'NOSUGGEST', 'ONLYINCOMPOUND') if (flag := self.flag(name))}
        self.similar = [entry for entry in self.entries if not unusable & entry.flags]
        self.alt = [[value for tag, value in tags if tag == 'ph' and not value.endswith('*') and '->' not in value]
                    for _, _, tags in spec['words']]
        self.rules = {'P': {}, 'S': {}}
        for kind in 'PS':
            for row in self.rows[kind]:
                self.rules[kind].setdefault(row.flag, []).append(row)

    def dash_allowed(self):
        return '-' in self.try_chars or 'a' in self.try_chars

    def edits(self, word):
        """(kind, text) or (kind, [words], dash too)"""
        yield 'uppercase', self.case.upper(word)
        for text in rep_results(word, self.rep):
            yield 'replchars', text
            if ' ' in text:
                yield 'replchars', text
                yield 'replchars', text.split(' ', 2), False
        for pos in range(1, len(word)):
            yield 'spaceword', word[:pos] + ' ' + word[pos:]
            if self.dash_allowed():
                yield 'spaceword', word[:pos] + '-' + word[pos:]
        if len(word) > 1:
            for text in mapped(word, self.spec['map']):
                yield 'mapchars', text
        for kind, texts in (('swapchar', swaps(word)), ('longswapchar', long_swaps(word)),
                            ('badcharkey', neighbour_keys(word, self.key)), ('extrachar', removals(word)),
                            ('forgotchar', insertions(word, self.try_chars)), ('movechar', moves(word)),
                            ('badchar', replacements(word, self.try_chars)), ('doubletwochars', undoubled(word))):
            for text in texts:
                yield kind, text
        if not self.opt.get('NOSPLITSUGS'):
            for pos in range(1, len(word)):
                yield 'twowords', [word[:pos], word[pos:]], self.dash_allowed()

    def edit_results(self, word, compounds):
        """(kind, text) of correct edits."""
        def fine(text):
            return self.good_word(text, capitalization=False, nosuggest=False, affixes=not compounds, compounds=compounds)
        for kind, text, *dash in self.edits(word):
            if isinstance(text, list):
                if all(fine(part) for part in text):
                    yield kind, ' '.join(text)
                    if dash[0]:
                        yield kind, '-'.join(text)
            elif fine(text):
                yield kind, text

    def is_forbidden(self, text):
        flag = self.flag('FORBIDDENWORD')
        return bool(flag) and self.has_flag(text, flag)

    def final(self, text, word, kind):
        """The text as it is shown to the user, None if it must not be shown."""
        keep = self.flag('KEEPCASE')
        if not (keep and self.has_flag(text, keep)) or (self.opt.get('CHECKSHARPS') and '\xdf' in text):
            cased = self.case.coerce(text, kind)
            if cased != text and self.is_forbidden(cased):
                cased = text
            text = cased
            if kind in (HUH, HUHINIT) and ' ' in text:
                pos = text.index(' ')
                after = text[pos + 1:pos + 2]
                if pos < len(word) and after != word[pos] and after.upper() == word[pos]:
                    text = text[:pos + 1] + word[pos] + text[pos + 2:]
        if self.is_forbidden(text):
            return None
        return convert(self.spec['oconv'], text) if self.spec['oconv'] else text

    def suggest(self, word):
        """[(text, source)]"""
        res = []
        handled = set()
        kind, variants = self.case.corrections(word)

        def add(text, source, inclusion=False):
            text = self.final(text, word, kind)
            if text is None or text in handled:
                return False
            if inclusion and any(old.lower() in text.lower() for old in handled):
                return False
            handled.add(text)
            res.append((text, source))
            return True

        def exact(text):
            return self.good_word(text, capitalization=False, nosuggest=False)

        if self.flag('FORCEUCASE') and kind == NO:
            for text in self.case.capitalized(word):
                if exact(text):
                    add(text.capitalize(), 'forceucase')
                    return res

        enough = False
        for num, variant in enumerate(variants):
            if num and exact(variant):
                add(variant, 'case')
            count = 0
            no_compounds = False
            for source, text in self.edit_results(variant, False):
                if add(text, source):
                    count += 1
                    enough = enough or source in GOOD_EDITS
                    if source in ('uppercase', 'replchars', 'mapchars'):
                        no_compounds = True
                    if source == 'spaceword':
                        return res
                    if count >= MAX_EDITS:
                        break
            if no_compounds:
                continue
            limit = self.opt.get('MAXCPDSUGS', 3)
            count = 0
            if limit > 0:
                for source, text in self.edit_results(variant, True):
                    if add(text, source):
                        count += 1
                        enough = enough or source in GOOD_EDITS
                        if count >= limit:
                            break
        if enough:
            return res

        if '-' in word and not any('-' in text for text in handled):
            pieces = word.split('-')
            for num, piece in enumerate(pieces):
                if exact(piece):
                    continue
                for text, _ in self.suggest(piece):
                    joined = '-'.join([*pieces[:num], text, *pieces[num + 1:]])
                    if self.lookup(joined):
                        handled.add(joined)
                        res.append((joined, 'dashes'))
                break

        limit = self.opt.get('MAXNGRAMSUGS', 4)
        if limit:
            count = 0
            for text in self.by_similarity(word.lower(), {text.lower() for text in handled}):
                count += add(text, 'ngram', inclusion=True)
                if count >= limit:
                    break
        if self.spec['phone']:
            count = 0
            for text in self.by_sound(word.lower()):
                count += add(text, 'phonet', inclusion=True)
                if count >= 2:
                    break
        return res

    # -- similarity --

    def forms_like(self, entry, word):
        """The stem and its forms by its own affixes fitting the word."""
        stem = entry.stem
        ends = [row for flag in entry.flags for row in self.rules['S'].get(flag, ())
                if cond_fits(row.cond, stem, 'S') and stem.endswith(row.strip) and word.endswith(row.add)]
        starts = [row for flag in entry.flags for row in self.rules['P'].get(flag, ())
                  if cond_fits(row.cond, stem, 'P') and stem.startswith(row.strip) and word.startswith(row.add)]
        res = [stem]
        for end in ends:
            res.append(stem[:len(stem) - len(end.strip)] + end.add)
        for start in starts:
            res.append(start.add + stem[len(start.strip):])
            for end in ends:
                if start.cross and end.cross:
                    res.append(start.add + stem[len(start.strip):max(0, len(stem) - len(end.strip))] + end.add)
        return res

    def by_similarity(self, word, known):
        roots = []
        for entry in self.similar:
            if abs(len(entry.stem) - len(word)) <= 4:
                score = max(root_score(word, text) for text in [entry.stem, *self.alt[entry.num]])
                roots.append((score, entry.stem, entry))
        roots.sort(key=lambda item: item[:2], reverse=True)
        least = threshold(word)
        guesses = []
        for _, _, entry in roots[:100]:
            for text in self.alt[entry.num]:
                guesses.append((rough_score(word, text), text, entry.stem))
            for form in self.forms_like(entry, word):
                guesses.append((rough_score(word, form.lower()), form, form))
        guesses = sorted((guess for guess in guesses if guess[0] > least), reverse=True)[:200]
        maxdiff = self.opt.get('MAXDIFF', -1)
        factor = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0
        scored = [(precise_score(word, text.lower(), factor, base, bool(self.spec['phone'])), real)
                  for base, text, real in guesses]
        scored.sort(key=lambda item: item[0], reverse=True)

        same = [item for item in scored if item[0] > 1000]
        usual = [item for item in scored if -100 <= item[0] <= 1000]
        doubtful = [item for item in scored if item[0] < -100]

        def unknown(items):
            return [real for _, real in items if not any(old in real for old in known)]
        if same:
            return unknown(same)
        res = unknown(usual)
        if doubtful and not res and not self.opt.get('ONLYMAXDIFF'):
            res += unknown(doubtful[:1])
        return res

    def by_sound(self, word):
        code = phonetic(self.spec['phone'], word)
        found = []
        for entry in self.similar:
            if abs(len(entry.stem) - len(word)) > 3:
                continue
            if max(root_score(word, text) for text in [entry.stem, *self.alt[entry.num]]) <= 2:
                continue
            found.append((2 * ngram(3, code, phonetic(self.spec['phone'], entry.stem), penalty='longer'), entry.stem))
        found = sorted(found, reverse=True)[:100]
        found = [(score + 2 * lcs(word, stem.lower()) - abs(len(word) - len(stem.lower())) + common_start(word, stem.lower()),
                  stem) for score, stem in found]
        found.sort(key=lambda item: item[0], reverse=True)
        return [stem for _, stem in found]
