"""Every documented single typo is corrected, in the documented order."""

from vlib import sgen
from vlib.engine import Check
from checks import _suggest


class S02(Check):
    id = 'S02'
    rule = ('a dictionary and a misspelling with at least one suggestion made by an edit, and at least one edit that is not '
            'a correct word; counted once per distinct dictionary and misspelling')
    assumptions = ['similarity suggestions are switched off (MAXNGRAMSUGS 0), no REP, MAP, PHONE']
    quick_n = 3600
    thorough_n = 9000
    min_nontrivial = 1000

    def gen(self, src):
        spec, wrong, alphabet = sgen.base(src, alphabet='abc|' if src.one_in(20) else None,
                                          amount=(6, 24) if src.one_in(8) else (1, 7))
        spec['opt']['MAXNGRAMSUGS'] = 0
        if src.one_in(6):
            spec['opt']['NOSPLITSUGS'] = True
        asked = [sgen.recased(src, wrong, 5), sgen.far_edits(src, wrong, alphabet)]
        return {'spec': spec, 'words': asked}

    def run(self, case, ctx):
        model, dictionary = _suggest.prepare(ctx, case['spec'])
        for word in case['words']:
            want = _suggest.compare(ctx, dictionary, model, word)
            if want:
                ctx.nontrivial((case['spec'], word))
            if len(want) >= 15:
                ctx.count('lists of 15 and more')


CHECK = S02()
