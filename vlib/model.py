"""
Reference model of word lookup, written from the documented meaning of the directives.

It works *forwards*: all forms are generated from the entries by attaching affixes, and a word is correct when it is among
the generated forms (or is a sequence of generated parts).  Nothing of the code under test is used.
"""

from collections import defaultdict, namedtuple

Row = namedtuple('Row', 'kind flag cross strip add flags cond num')
# p1/s1: affix next to the stem, p2/s2: the outer one
Form = namedtuple('Form', 'text stem entry p1 s1 p2 s2')
Entry = namedtuple('Entry', 'stem flags case num')

NO, INIT, ALL, HUHINIT, HUH = 'NO', 'INIT', 'ALL', 'HUHINIT', 'HUH'
DEFAULT_BREAK = ['-', '^-', '-$']


# -- letter case -------------------------------------------------------------------------------------------------------

class Case:
    """Letter case of generic languages."""

    def kind(self, word):
        cased = [ch for ch in word if ch.islower() or ch.isupper() or ch.istitle()]
        if cased and all(ch.islower() for ch in cased):
            return NO
        if cased and all(ch.isupper() for ch in cased):
            return ALL
        if word[:1].isupper():
            rest = [ch for ch in cased[1:]]
            return INIT if rest and all(ch.islower() for ch in rest) else HUHINIT
        return HUH

    def lower(self, word):
        if not word or word[0] == 'İ':
            return []
        return [word.lower().replace('i̇', 'i')]

    def upper(self, word):
        return word.upper()

    def lowerfirst(self, word):
        return [first + word[1:] for first in self.lower(word[0])]

    def capitalized(self, word):
        if len(word) == 1:
            return list(self.upper(word))
        return [self.upper(word[0]) + rest for rest in self.lower(word[1:])]

    def variants(self, word):
        """Spellings under which a correct word may be listed."""
        kind = self.kind(word)
        if kind == INIT:
            return kind, [word, *self.lower(word)]
        if kind == HUHINIT:
            return kind, [word, *self.lowerfirst(word)]
        if kind == ALL:
            return kind, [word, *self.lower(word), *self.capitalized(word)]
        return kind, [word]

    def corrections(self, word):
        """Spellings to correct."""
        kind = self.kind(word)
        if kind == HUHINIT:
            return kind, [word, *self.lowerfirst(word), *self.lower(word), *self.capitalized(word)]
        if kind == HUH:
            return kind, [word, *self.lower(word)]
        return self.variants(word)

    def coerce(self, word, kind):
        if kind in (INIT, HUHINIT):
            return self.upper(word[0]) + word[1:]
        if kind == ALL:
            return self.upper(word)
        return word


class TurkicCase(Case):
    def lower(self, word):
        return super().lower(word.replace('İ', 'i').replace('I', 'ı'))

    def upper(self, word):
        return super().upper(word.replace('i', 'İ').replace('ı', 'I'))


class GermanCase(Case):
    def kind(self, word):
        if '\xdf' in word and super().kind(word.replace('\xdf', '')) == ALL:
            return ALL
        return super().kind(word)

    def lower(self, word):
        base = super().lower(word)
        if 'SS' not in word:
            return base
        res = []
        for low in base:
            # every choice of non-overlapping ss occurrences, left to right
            def spread(text, start):
                pos = text.find('ss', start)
                if pos == -1:
                    return []
                sharp = text[:pos] + '\xdf' + text[pos + 2:]
                return [sharp, *spread(sharp, pos + 1), *spread(text, pos + 2)]
            res += [*spread(low, 0), low]
        return res


# -- affixes -------------------------------------------------------------------------------------------------------------

def parse_cond(cond):
    """Condition as a list of predicates on one character."""
    res = []
    pos = 0
    while pos < len(cond):
        char = cond[pos]
        if char == '[':
            end = cond.index(']', pos)
            body = cond[pos + 1:end]
            if body.startswith('^'):
                res.append((False, frozenset(body[1:])))
            else:
                res.append((True, frozenset(body)))
            pos = end + 1
            continue
        res.append(None if char == '.' else (True, frozenset(char)))
        pos += 1
    return res


def cond_fits(items, text, kind):
    if len(items) > len(text):
        return False
    if kind == 'S':
        text = text[len(text) - len(items):]
    return all(item is None or (char in item[1]) == item[0] for item, char in zip(items, text))


class Model:    # pylint: disable=too-many-instance-attributes
    def __init__(self, spec):
        self.spec = spec
        self.opt = spec['opt']
        self.fl = spec['fl']
        ignore = self.opt.get('IGNORE') or ''
        self.ignored = set(ignore)
        if self.opt.get('CHECKSHARPS'):
            self.case = GermanCase()
        elif self.opt.get('LANG') in ('tr', 'tr_TR', 'az', 'crh'):
            self.case = TurkicCase()
        else:
            self.case = Case()

        self.entries = []
        self.by_stem = defaultdict(list)
        self.by_lower = defaultdict(list)
        for num, (stem, flags, _) in enumerate(spec['words']):
            stem = self.clean(stem)
            entry = Entry(stem, frozenset(flags), self.case.kind(stem), num)
            self.entries.append(entry)
            self.by_stem[stem].append(entry)
            for low in (self.case.lower(stem) if entry.case != NO else [stem]):
                self.by_lower[low].append(entry)
        self.rows = {'P': [], 'S': []}
        num = 0
        for kind, key in (('P', 'pfx'), ('S', 'sfx')):
            for flag, cross, rows in spec[key]:
                for strip, add, flags, cond in rows:
                    self.rows[kind].append(Row(kind, flag, cross, strip, self.clean(add), frozenset(flags),
                                               tuple(parse_cond(cond)), num))
                    num += 1
        self.rep = [*map(tuple, spec['rep'])]
        for stem, _, tags in spec['words']:
            stem = self.clean(stem)
            for tag, value in tags:
                if tag != 'ph':
                    continue
                if value.endswith('*'):
                    self.rep.append((value[:-2], stem[:-1]))
                elif '->' in value:
                    fro, _, to = value.partition('->')
                    self.rep.append((fro, to))
                else:
                    self.rep.append((value, stem))
        self.breaks = DEFAULT_BREAK if spec['break'] is None else spec['break']
        self._tables = {}
        self._memo = {}

    def clean(self, text):
        return ''.join(ch for ch in text if ch not in self.ignored) if self.ignored else text

    def flag(self, name):
        return self.fl.get(name)

    def has_flag(self, stem, flag, every=False):
        found = [flag in entry.flags for entry in self.by_stem.get(stem, [])]
        return bool(found) and (all(found) if every else any(found))

    # -- generating forms --

    def attach(self, row, text):
        """Text with the affix, or None."""
        if not cond_fits(row.cond, text, row.kind):
            return None
        if row.kind == 'S':
            if not text.endswith(row.strip):
                return None
            return text[:len(text) - len(row.strip)] + row.add
        if not text.startswith(row.strip):
            return None
        return row.add + text[len(row.strip):]

    def usable(self, kind, pos):
        """Rows that may be used at the place in a compound (None: not in a compound)."""
        rows = self.rows[kind]
        if pos is None:
            return rows
        free = (pos == 'BEGIN') if kind == 'P' else (pos == 'END')
        permit = self.flag('COMPOUNDPERMITFLAG')
        if not free:
            if not permit:
                return []
            rows = [row for row in rows if permit in row.flags]
        forbid = self.flag('COMPOUNDFORBIDFLAG')
        if forbid:
            rows = [row for row in rows if forbid not in row.flags]
        return rows

    def chains(self, stem, flags, pos):
        """All (text, p1, s1, p2, s2) that can be built on the text of the stem."""
        prefixes = self.usable('P', pos)
        suffixes = self.usable('S', pos)
        more = set(flags)
        for row in prefixes:
            more |= row.flags
        suffixed = [(stem, None, None)]
        for one in suffixes:
            if one.flag not in more:
                continue
            text = self.attach(one, stem)
            if text is None:
                continue
            suffixed.append((text, one, None))
            for two in suffixes:
                if two.flag not in one.flags:
                    continue
                text2 = self.attach(two, text)
                if text2 is None:
                    continue
                suffixed.append((text2, one, two))
        for text, s1, s2 in suffixed:
            yield (text, None, s1, None, s2)
            sfx = [s for s in (s1, s2) if s]
            if not all(s.cross for s in sfx):
                continue
            for one in prefixes:
                if sfx and not one.cross:
                    continue
                if one.flag not in flags and not (s1 and one.flag in s1.flags):
                    continue
                text1 = self.attach(one, text)
                if text1 is None:
                    continue
                yield (text1, one, s1, None, s2)
                if not self.opt.get('COMPLEXPREFIXES'):
                    continue
                for two in prefixes:
                    if two.flag not in one.flags or (sfx and not two.cross):
                        continue
                    text2 = self.attach(two, text1)
                    if text2 is None:
                        continue
                    yield (text2, one, s1, two, s2)

    def table(self, pos):
        if pos not in self._tables:
            res = defaultdict(list)
            stems = defaultdict(set)
            for stem, homonyms in self.by_stem.items():
                for entry in homonyms:
                    stems[stem] |= entry.flags
                    if pos == 'BEGIN' and self.flag('FORCEUCASE') and stem == stem.lower():
                        stems[stem[:1].upper() + stem[1:]] |= entry.flags
            if pos is None:
                for stem, homonyms in self.by_lower.items():
                    for entry in homonyms:
                        stems[stem] |= entry.flags
            for stem, flags in stems.items():
                for text, *chain in self.chains(stem, flags, pos):
                    res[text].append((stem, *chain))
            self._tables[pos] = res
        return self._tables[pos]

    @staticmethod
    def form_flags(form):
        flags = form.entry.flags if form.entry else frozenset()
        for row in (form.p1, form.s1):
            if row:
                flags = flags | row.flags
        return flags

    def good(self, form, kind, pos, nosuggest):
        root = form.entry.flags
        affixes = [row for row in (form.p1, form.s1, form.p2, form.s2) if row]
        if not nosuggest and self.flag('NOSUGGEST') in root:
            return False
        if self.flag('KEEPCASE') in root and kind != form.entry.case:
            if not (self.opt.get('CHECKSHARPS') and '\xdf' in form.entry.stem):
                return False
        need = self.flag('NEEDAFFIX')
        if need:
            if not affixes and need in root:
                return False
            if affixes and all(need in row.flags for row in affixes):
                return False
        if form.p1 and form.p1.flag not in root and not (form.s1 and form.p1.flag in form.s1.flags):
            return False
        if form.s1 and form.s1.flag not in root and not (form.p1 and form.s1.flag in form.p1.flags):
            return False
        circ = self.flag('CIRCUMFIX')
        if circ:
            in_p = bool(form.p1) and circ in form.p1.flags
            in_s = bool(form.s1) and circ in form.s1.flags
            if in_p != in_s:
                return False
        flags = self.form_flags(form)
        if pos is None:
            return self.flag('ONLYINCOMPOUND') not in flags
        return self.flag('COMPOUNDFLAG') in flags or self.flag('COMPOUND' + pos) in flags

    def forms(self, word, kind, pos=None, nosuggest=True, with_forbidden=False):
        """All correct affix forms of exactly this spelling."""
        key = (word, kind, pos, nosuggest, with_forbidden)
        if key in self._memo:
            return self._memo[key]
        res = []
        forbidden = self.flag('FORBIDDENWORD')
        for stem, *chain in self.table(pos).get(word, ()):
            exact = self.by_stem.get(stem, [])
            if (forbidden and not with_forbidden and (pos or any(chain)) and
                    any(forbidden in entry.flags for entry in exact)):
                continue
            found = [Form(word, stem, entry, *chain) for entry in exact]
            found = [form for form in found if self.good(form, kind, pos, nosuggest)]
            if pos == 'BEGIN' and self.flag('FORCEUCASE') and kind == INIT:
                more = [Form(word, stem, entry, *chain) for entry in self.by_stem.get(stem.lower(), [])]
                found += [form for form in more if form not in found and self.good(form, kind, pos, nosuggest)]
            if not found and pos is None and kind == ALL and self.case.kind(word) == NO:
                more = [Form(word, stem, entry, *chain) for entry in self.by_lower.get(stem, [])
                        if with_forbidden or not forbidden or forbidden not in entry.flags]
                found = [form for form in more if self.good(form, kind, pos, nosuggest)]
            res += found
        self._memo[key] = res
        return res

    # -- compounds --

    def compounds(self, word, kind, nosuggest=True):
        """All correct compound readings of exactly this spelling: lists of forms."""
        forbidden = self.flag('FORBIDDENWORD')
        if forbidden and any(forbidden in self.form_flags(form)
                             for form in self.forms(word, kind, with_forbidden=True)):
            return
        if self.flag('COMPOUNDFLAG') or self.flag('COMPOUNDBEGIN'):
            yield from (parts for parts in self.by_flags(word, kind, nosuggest, 0) if not self.bad(parts, kind))
        if self.spec['crule']:
            yield from (parts for parts in self.by_rules(word) if not self.bad(parts, kind))

    def by_flags(self, rest, kind, nosuggest, done):
        least = max(1, self.opt.get('COMPOUNDMIN', 3))
        most = self.opt.get('COMPOUNDWORDMAX')
        if done and (not most or done + 1 <= most) and len(rest) >= least:
            yield from ([form] for form in self.forms(rest, kind, 'END', nosuggest))
        if most and done + 2 > most:
            return
        for cut in range(least, len(rest) - least + 1):
            left, right = rest[:cut], rest[cut:]
            place = 'MIDDLE' if done else 'BEGIN'
            starts = list(self.forms(left, kind, place, nosuggest))
            if self.opt.get('SIMPLIFIEDTRIPLE') and left[-1] == right[0]:
                starts += [form._replace(text=left)
                           for form in self.forms(left + left[-1], kind, place, nosuggest)]
            if starts:
                for tail in self.by_flags(right, kind, nosuggest, done + 1):
                    for form in starts:
                        yield [form, *tail]

    def by_rules(self, word):
        least = max(1, self.opt.get('COMPOUNDMIN', 3))
        most = self.opt.get('COMPOUNDWORDMAX')
        rules = self.spec['crule']

        def walk(rest, parts, states):
            if not rest:
                if len(parts) >= 2 and any(len(rule) in state for rule, state in zip(rules, states)):
                    yield [Form(e.stem, e.stem, None, None, None, None, None) for e in parts]
                return
            if most and len(parts) >= most:
                return
            for cut in range(least, len(rest) + 1):
                for entry in self.by_stem.get(rest[:cut], []):
                    after = [rule_step(rule, state, entry.flags) for rule, state in zip(rules, states)]
                    if any(after):
                        yield from walk(rest[cut:], [*parts, entry], after)
        return walk(word, [], [rule_close(rule, {0}) for rule in rules])

    def bad(self, parts, kind):     # pylint: disable=too-many-return-statements,too-many-branches
        force = self.flag('FORCEUCASE')
        if force and kind not in (ALL, INIT) and self.has_flag(parts[-1].text, force):
            return True
        forbid = self.flag('COMPOUNDFORBIDFLAG')
        last = len(parts) - 2
        for idx in range(len(parts) - 1):
            one, two = parts[idx], parts[idx + 1]
            left, right = one.text, two.text
            if forbid and self.has_flag(left, forbid):
                return True
            if self.forms(left + ' ' + right, kind):
                return True
            if self.opt.get('CHECKCOMPOUNDREP'):
                if any(self.forms(text, kind) for text in rep_results(left + right, self.rep)):
                    return True
            if self.opt.get('CHECKCOMPOUNDTRIPLE'):
                around = left[-2:] + '|' + right[:2]
                joined = around.replace('|', '')
                cut = around.index('|')
                for start in range(len(joined) - 2):
                    if start < cut < start + 3 and len(set(joined[start:start + 3])) == 1:
                        return True
            if self.opt.get('CHECKCOMPOUNDCASE'):
                near = (left[-1], right[0])
                if '-' not in near and any(ch == ch.upper() for ch in near):
                    return True
            for lchars, lflag, rchars, rflag in self.spec['cpat']:
                if pattern_fits(lchars, one, left.endswith) and pattern_fits(rchars, two, right.startswith) and \
                        (not lflag or lflag in self.form_flags(one)) and (not rflag or rflag in self.form_flags(two)):
                    return True
            if self.opt.get('CHECKCOMPOUNDDUP') and idx == last and left == right:
                return True
        return False

    # -- words --

    def analyses(self, word, capitalization=True, nosuggest=True, affixes=True, compounds=True, first=False):
        """
        Everything that makes the word (without breaking) correct: ('affix', Form) and ('compound', (Form, ...)).
        With ``first`` it is enough to find one.
        """
        kind, variants = self.case.variants(word)
        if not capitalization:
            variants = [word]
        res = []
        keep = self.flag('KEEPCASE')
        forbidden = self.flag('FORBIDDENWORD')
        for variant in dict.fromkeys(variants):
            if forbidden and self.has_flag(variant, forbidden, every=True):
                continue
            if affixes:
                for form in self.forms(variant, kind, None, nosuggest):
                    if (self.opt.get('CHECKSHARPS') and keep and '\xdf' in form.entry.stem and
                            keep in self.form_flags(form) and kind == ALL and '\xdf' in word):
                        continue
                    res.append(('affix', form))
            if first and res:
                break
            if compounds:
                for parts in self.compounds(variant, kind, nosuggest):
                    res.append(('compound', tuple(parts)))
                    if first:
                        break
        return res

    def good_word(self, word, **kwargs):
        key = ('good', word, *sorted(kwargs.items()))
        if key not in self._memo:
            self._memo[key] = bool(self.analyses(word, **kwargs, first=True))
        return self._memo[key]

    def convert(self, word):
        if self.spec['iconv']:
            word = convert(self.spec['iconv'], word)
        return self.clean(word)

    def lookup(self, word, capitalization=True, nosuggest=True):
        forbidden = self.flag('FORBIDDENWORD')
        if forbidden and self.has_flag(word, forbidden, every=True):
            return False
        word = self.convert(word)
        if is_number(word):
            return True
        return self.broken(word, 0, capitalization, nosuggest)

    def broken(self, text, depth, capitalization, nosuggest):
        if depth > 10:
            return False

        def fine(piece):
            return not piece or self.good_word(piece, capitalization=capitalization, nosuggest=nosuggest)

        if fine(text):
            return True
        for start, end in cuts(text, self.breaks):
            if fine(text[:start]) and self.broken(text[end:], depth + 1, capitalization, nosuggest):
                return True
        return False


def cuts(text, patterns):
    """Places where the text may be cut: (start, end) of the removed break string."""
    for pattern in patterns:
        at_start, at_end = pattern.startswith('^'), pattern.endswith('$')
        body = pattern[at_start:len(pattern) - at_end]
        if at_start and at_end:
            if text == body:
                yield 0, len(body)
        elif at_start:
            if text.startswith(body):
                yield 0, len(body)
        elif at_end:
            if text.endswith(body):
                yield len(text) - len(body), len(text)
        else:
            for pos in range(1, len(text) - len(body)):
                if text.startswith(body, pos):
                    yield pos, pos + len(body)


def is_number(word):
    whole, point, part = word.partition('.')
    return whole.isdecimal() and (part.isdecimal() if point else True)


def rule_close(rule, states):
    """Positions in the rule reachable by leaving out optional items."""
    res = set(states)
    for state in range(len(rule)):
        if state in res and rule[state][1]:
            res.add(state + 1)
    return res


def rule_step(rule, states, flags):
    """Positions in the rule after one more entry."""
    after = set()
    for state in states:
        if state < len(rule) and rule[state][0] in flags:
            after.add(state if rule[state][1] == '*' else state + 1)
    return rule_close(rule, after)


def pattern_fits(chars, form, test):
    if chars == '0':
        return form.text == form.stem
    return test(chars)


def rep_results(word, table):
    """Results of applying every replacement at every place."""
    if len(word) < 2:
        return
    for pattern, replacement in table:
        at_start, at_end = pattern.startswith('^'), pattern.endswith('$')
        body = pattern[at_start:len(pattern) - at_end]
        pos = 0
        while pos <= len(word) - len(body):
            if word.startswith(body, pos) and (not at_start or pos == 0) and (not at_end or pos + len(body) == len(word)):
                yield word[:pos] + replacement.replace('_', ' ') + word[pos + len(body):]
                pos += max(1, len(body))
            else:
                pos += 1


def convert(table, word):
    res = ''
    pos = 0
    while pos < len(word):
        best = None
        for pattern, replacement in table:
            body = pattern.replace('_', '')
            if not word.startswith(body, pos):
                continue
            if pattern.startswith('_') and pos:
                continue
            if pattern.endswith('_') and pos + len(body) != len(word):
                continue
            if best is None or len(body) > len(best[0]):
                best = (body, replacement.replace('_', ' '))
        if best:
            res += best[1]
            pos += len(best[0])
        else:
            res += word[pos]
            pos += 1
    return res
