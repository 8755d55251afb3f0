"""Compounds by rules."""

from vlib import gen, spec as sp
from vlib.engine import Check
from vlib.model import Model
from checks._lookup import compare

STYLES = {
    'short': {},
    'UTF-8': {'flag': 'UTF-8', 'flagmap': {'K': 'к', 'L': 'L', 'M': '\xb5', 'N': '中', 'A': 'Α', 'P': 'Π'}},
    'long': {'flag': 'long', 'flagmap': {'K': 'Ka', 'L': 'aK', 'M': 'KK', 'N': '!.', 'A': 'Aa', 'P': 'Pp'}},
    'signs': {'flagmap': {'K': '.', 'L': '+', 'M': '[', 'N': ')'}},
    'more signs': {'flagmap': {'K': '^', 'L': '|', 'M': '$', 'N': '{'}},
    'num': {'flag': 'num', 'flagmap': {'K': '101', 'L': '110', 'M': '111', 'N': '999', 'A': '201', 'P': '301'}},
    'uneven num': {'flag': 'num', 'flagmap': {'K': '1', 'L': '11', 'M': '111', 'N': '12', 'A': '2', 'P': '21'}},
}


class L07(Check):
    id = 'L07'
    rule = ('a dictionary with at least one accepted word that is only correct through a compound rule and at least one '
            'rejected sequence of entries; counted once per distinct dictionary')
    assumptions = ['words of at most 6, 9 or 12 letters for COMPOUNDMIN 1, 2, 3, or of up to nine parts without common letters; '
                   'break points switched off']
    quick_n = 3000
    thorough_n = 8000
    min_nontrivial = 1000

    def gen(self, src):
        style = src.weighted([(5, 'short'), (1, 'UTF-8'), (3, 'long'), (2, 'num'), (2, 'uneven num'), (1, 'signs'), (1, 'more signs')])
        if src.one_in(6):
            spec, words = gen.gen_chain(src, rules=True)
            spec['break'] = []
            return {'spec': spec, 'alphabet': '', 'chains': words, 'style': style}
        spec, alphabet = gen.gen_compound(src, rules=True, affixes=False, alphabet=src.pick(['ab', 'abc', 'a1b', '12']))
        spec['break'] = []
        spec['fl'].pop('ONLYINCOMPOUND', None)
        for entry in spec['words']:
            entry[1] = [flag for flag in entry[1] if flag != 'o']
        if src.one_in(3):
            spec['sfx'].append(['A', True, [['', alphabet[0], [], '']]])
            for entry in spec['words']:
                if src.coin():
                    entry[1].append('A')
        return {'spec': spec, 'alphabet': alphabet, 'style': style}

    def run(self, case, ctx):
        spec, alphabet = case['spec'], case['alphabet']
        model = Model(spec)
        dictionary = sp.load(ctx, spec, STYLES[case['style']])
        words = dict.fromkeys(gen.compound_words(spec, gen.thin(gen.loose_forms(spec, 40), 12)))
        words.update(dict.fromkeys(gen.all_words(alphabet[:2], 5)))
        words = [word for word in words if word and len(word) <= gen.longest_word(spec)]
        words = case.get('chains') or words
        accepted, rejected = compare(ctx, dictionary, model, words)
        only = [word for word in accepted if not word.isdecimal() and not model.analyses(word, compounds=False)]
        ctx.count('accepted compounds', len(only))
        ctx.count('rejected words', len(rejected))
        ctx.count(f"flag notation {case['style']}")
        for word in only[:40]:
            for _, parts in model.analyses(word, affixes=False)[:3]:
                ctx.count(f'accepted compounds of {len(parts)} parts')
        if only and rejected:
            ctx.nontrivial((spec, case['style']))


CHECK = L07()
