"""Suggestions with their explanation, and the raw edits of a word."""

from vlib import sgen
from vlib.engine import Check, Violation
from checks import _suggest, s01, s02, s03, s04, s05, s06, s07

OTHERS = [(2, s01.CHECK), (4, s02.CHECK), (4, s03.CHECK), (5, s04.CHECK), (3, s05.CHECK), (2, s06.CHECK), (2, s07.CHECK)]


class S08(Check):
    id = 'S08'
    rule = ('a dictionary and a misspelling with suggestions made in at least two ways; counted once per distinct dictionary '
            'and misspelling')
    assumptions = ['edits equal to the word itself and repeated edits are not compared']
    quick_n = 1100
    thorough_n = 4000
    min_nontrivial = 800

    def gen(self, src):
        case = src.weighted(OTHERS).gen(src)
        asked = [src.pick(case['words']), sgen.recased(src, src.pick(case['words']), 3)]
        return {'spec': case['spec'], 'words': list(dict.fromkeys(asked))}

    def run(self, case, ctx):
        model, dictionary = _suggest.prepare(ctx, case['spec'])
        suggester = dictionary.suggester
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            explained = ctx.sut(f'suggestions({word!r})', lambda: list(suggester.suggestions(word)))   # pylint: disable=cell-var-from-loop
            got = [(one.text, one.kind) for one in explained]
            if got != want:
                raise Violation(f'explained suggestions for {word!r} are {got!r}, documented: {want!r}')
            printed = [str(one) for one in explained]
            if printed != [f'Suggestion[{kind}]({text})' for text, kind in want]:
                raise Violation(f'explained suggestions for {word!r} are printed as {printed!r}')
            self.compare_edits(ctx, suggester, model, word)
            if len({kind for _, kind in want}) > 1:
                ctx.nontrivial((case['spec'], word))

    @staticmethod
    def compare_edits(ctx, suggester, model, word):
        got = []
        for edit in ctx.sut(f'edits({word!r})', lambda: list(suggester.edits(word))):
            if hasattr(edit, 'words'):
                got.append((edit.source, tuple(edit.words), edit.allow_dash))
            else:
                got.append((edit.kind, edit.text, None))
        want = [(kind, tuple(text) if dash else text, dash[0] if dash else None) for kind, text, *dash in model.edits(word)]
        got, want = [[item for item in dict.fromkeys(edits) if item[1] != word] for edits in (got, want)]
        ctx.count('edits', len(want))
        if got != want:
            place = next((num for num, pair in enumerate(zip(got, want)) if pair[0] != pair[1]), min(len(got), len(want)))
            raise Violation(f'edits of {word!r}: number {place} is {got[place:place + 1]!r}, documented: {want[place:place + 1]!r}')


CHECK = S08()
