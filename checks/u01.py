"""The unmunch example: all words of a dictionary without compounds."""

import contextlib
import io
import os
import runpy
import sys

from vlib import gen, sgen, spec as sp
from vlib.engine import REPO, Check, Violation
from vlib.model import Model

SCRIPT = os.path.join(REPO, 'examples', 'unmunch.py')


def call(*args):
    """Words printed by the script."""
    out = io.StringIO()
    saved = sys.argv
    sys.argv = [SCRIPT, *args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(SCRIPT, run_name='__main__')
    except SystemExit as exc:
        raise RuntimeError(f'the script stopped with code {exc.code}') from exc
    finally:
        sys.argv = saved
    return [line for line in out.getvalue().split('\n') if line and not line.startswith('Unmunching ')]


def gen_row(src, alphabet, stems, kind):
    strip = ''
    if src.one_in(3):
        size = src.rng_int(1, 2)
        strip = src.pick(stems)
        strip = strip[:size] if kind == 'pfx' else strip[-size:]
    items = []
    for char in src.pick(stems)[:src.n(3)]:
        others = ''.join(sorted(set(src.sample(alphabet, src.rng_int(1, 2)))))
        items.append(src.pick([char, '.', f'[{others}]', f'[^{others}]']))
    rest = ''.join(items[len(strip):])
    cond = strip + rest if kind == 'pfx' else rest + strip
    return [strip, src.word(alphabet, 0 if strip else 1, 3), [], cond]


class U01(Check):
    id = 'U01'
    rule = ('a dictionary with a word made by a prefix and a suffix, or by two suffixes, listed; counted once per distinct '
            'dictionary')
    assumptions = ['conditions of affixes repeat the stripped text, and stems are longer than all that their affixes look at',
                   'affixes allow further suffixes only; no compounds, circumfixes or double prefixes',
                   'no entry with a prefix and a suffix class marked N besides the known finding']
    quick_n = 600
    thorough_n = 5000
    min_nontrivial = 1000

    def gen(self, src):
        spec = sp.empty()
        alphabet = src.pick(['ab', 'abc', 'abcd', 'ab\xe9', 'кот', 'aяb'])
        stems = [sgen.recased(src, src.word(alphabet, 9, 13), 6) for _ in range(src.rng_int(1, 5))]
        if src.one_in(3):
            stems.append(src.pick(stems) + src.weighted([(1, ''), (1, alphabet[0]), (1, src.word(alphabet, 1, 3))]))
        pfx = 'PQR'[:src.n(4)]
        sfx = 'ABCD'[:src.n(5)]
        need = src.one_in(3)
        if need:
            spec['fl']['NEEDAFFIX'] = 'n'
        if src.one_in(3):
            spec['fl']['FORBIDDENWORD'] = 'f'
        for kind, flags in (('pfx', pfx), ('sfx', sfx)):
            for flag in flags:
                rows = [gen_row(src, alphabet, stems, kind) for _ in range(src.rng_int(5, 15) if src.one_in(12) else src.rng_int(1, 4))]
                for row in rows:
                    row[2] = [other for other in sfx if other not in ('A', flag) and src.one_in(3)]
                    if need and flag == 'A' and src.coin():
                        row[2].append('n')
                spec[kind].append([flag, src.pct(70), rows])
        for stem in stems:
            flags = [flag for flag in pfx + sfx if src.pct(60)]
            if any(cross for flag, cross, _ in spec['pfx'] if flag in flags):
                # see KNOWN_FINDINGS.txt
                flags = [flag for flag in flags if flag not in [kind for kind, cross, _ in spec['sfx'] if not cross]]
            flags += [flag for flag in spec['fl'].values() if src.one_in(4)]
            spec['words'].append([stem, flags, []])
        style = {}
        if src.one_in(3):
            style = {'flag': 'long', 'flagmap': {flag: flag + src.pick('xy1') for flag in 'ABCDPQRnf'}}
        return {'spec': spec, 'style': style, 'stem': src.pick(stems)}

    @staticmethod
    def forms(spec, words):
        banned = spec['fl'].get('FORBIDDENWORD')
        model = Model({**spec, 'words': [word for word in words if banned not in word[1]]})
        listed = {}
        for text in model.table(None):
            found = model.forms(text, model.case.kind(text))
            if found:
                listed[text] = found
        return listed

    def run(self, case, ctx):
        spec = case['spec']
        folder = ctx.fresh_dir()
        base = sp.write(spec, folder, case['style'])
        everything = self.forms(spec, spec['words'])
        one = self.forms(spec, [word for word in spec['words'] if word[0] == case['stem']])
        for args, want in (([], everything), (['-w', case['stem']], one), (['-i'], everything),
                           (['--word', case['stem'], '--immediate'], one)):
            got = ctx.sut(f'unmunch {args!r}', call, '-d', base, *args)
            if set(got) != set(want):
                raise Violation(f'unmunch {args!r} does not list {sorted(set(want) - set(got))!r}, '
                                f'lists wrongly {sorted(set(got) - set(want))!r}')
            if '-i' not in args and '--immediate' not in args and got != sorted(set(got)):
                raise Violation(f'unmunch {args!r} is not sorted or has repetitions: {got!r}')
        if 'FORBIDDENWORD' not in spec['fl']:
            dictionary = sp.load(ctx, spec, case['style'])
            for word in gen.thin(everything, 30):
                if not ctx.sut(f'lookup({word!r})', dictionary.lookup, word):
                    raise Violation(f'unmunch lists {word!r}, lookup does not accept it')
        crossed = [form for forms in everything.values() for form in forms if (form.p1 and form.s1) or form.s2]
        ctx.count('listed words', len(everything))
        ctx.count('with two affixes or more', len(crossed))
        if crossed:
            ctx.nontrivial(spec)


CHECK = U01()
