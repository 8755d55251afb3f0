"""Hash seeds, order of entries and of affix classes."""

import json

from vlib import asking, rich, spec as sp
from vlib.engine import Check, Violation
from vlib.server import Server

_SERVERS = {}


def server(hash_seed):
    if hash_seed not in _SERVERS:
        _SERVERS[hash_seed] = Server(hash_seed)
    return _SERVERS[hash_seed]


class H02(Check):
    id = 'H02'
    rule = ('a dictionary with at least two entries or affix classes to reorder, with accepted and rejected words and with '
            'suggestions; counted once per distinct dictionary')
    assumptions = ['an affix class is written in one place']
    quick_n = 350
    thorough_n = 4000
    min_nontrivial = 800

    def gen(self, src):
        case = rich.dictionary(src)
        spec = case['spec']
        case['order'] = src.shuffled(range(len(spec['words'])))
        case['affix_order'] = src.shuffled(range(len(spec['pfx']) + len(spec['sfx'])))
        case['seeds'] = src.sample([1, 2, 3, 4], 2)
        case['af'] = src.one_in(3)
        case['analysed'] = src.sample(case['words'], 6)
        return case

    def run(self, case, ctx):
        spec = case['spec']
        style = {'af': case['af']}
        words, ask = case['words'], case['ask']
        questions = [['lookup', word] for word in words]
        questions += [['suggest', word] for word in ask] + [['suggestions', word] for word in ask[:1]]
        questions += [['forms', word] for word in case['analysed']]
        dictionary = sp.load(ctx, spec, style)
        here = []
        for kind, word in questions:
            answer = ctx.sut(f'{kind}({word!r})', asking.ask, dictionary, kind, word)
            here.append(json.loads(json.dumps(answer)))
        base = sp.write(spec, ctx.fresh_dir(), style)
        for seed in case['seeds']:
            for (kind, word), mine, other in zip(questions, here, server(seed).answers(base, questions)):
                if mine != other:
                    raise Violation(f'{kind}({word!r}) answered {mine!r} and, in a process with hash seed {seed}, {other!r}')
        moved = dict(spec, words=[spec['words'][pos] for pos in case['order']])
        again = sp.load(ctx, moved, dict(style, affix_order=case['affix_order'], affixes_early=True))
        yes = no = 0
        for word, mine in zip(words, here):
            other = ctx.sut(f'lookup({word!r})', again.lookup, word)
            if mine is not other:
                raise Violation(f'lookup({word!r}) returned {mine!r} and, with reordered entries and affix classes, {other!r}')
            yes += mine
            no += not mine
        given = any(here[len(words):len(words) + len(ask)])
        ctx.count('with suggestions', given)
        if yes and no and given and (len(case['order']) > 1 or len(case['affix_order']) > 1):
            ctx.nontrivial(spec)


CHECK = H02()
