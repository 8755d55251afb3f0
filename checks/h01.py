"""Histories of calls."""

import copy

from vlib import asking, rich, sgen, spec as sp
from vlib.engine import Check, Inconclusive, Violation


def altered(src, spec):
    """A dictionary much like the given one, with something taken away."""
    res = copy.deepcopy(spec)
    for kind in src.sample(['words', 'fl', 'opt', 'tables', 'flags', 'affixes'], src.rng_int(1, 3)):
        if kind == 'words':
            res['words'] = [word for word in res['words'] if src.pct(60)] or res['words'][:1]
        elif kind == 'fl':
            res['fl'] = {key: val for key, val in res['fl'].items() if src.coin()}
        elif kind == 'opt':
            res['opt'] = {key: val for key, val in res['opt'].items() if key == 'COMPOUNDMIN' or src.coin()}
        elif kind == 'tables':
            for key in ('rep', 'map', 'iconv', 'oconv', 'phone', 'crule', 'cpat'):
                if res[key] and src.coin():
                    res[key] = []
            if src.coin():
                res['break'] = None if res['break'] is not None else []
        elif kind == 'flags':
            for word in res['words']:
                word[1] = [flag for flag in word[1] if src.pct(60)]
        else:
            for key in ('pfx', 'sfx'):
                res[key] = [group for group in res[key] if src.pct(60)]
    return res


class H01(Check):
    id = 'H01'
    rule = ('a history with at least two dictionaries loaded or an unfinished iteration, in which some answer is True or some '
            'suggestion is given; counted once per distinct dictionaries and history')
    assumptions = []
    quick_n = 360
    thorough_n = 2500
    min_nontrivial = 500

    def gen(self, src):
        first = rich.dictionary(src)
        specs = [first['spec']]
        words = src.sample(first['words'], src.rng_int(2, 5))
        words += first['ask']
        words += [sgen.recased(src, word, 1) for word in src.sample(words, 2)]
        for _ in range(src.weighted([(1, 0), (4, 1), (1, 2)])):
            specs.append(altered(src, src.pick(specs)))
        words = list(dict.fromkeys(words))
        steps = []
        short = [word for word in words if len(word) <= min(rich.longest_asked(spec) for spec in specs)] or ['a']
        for _ in range(src.length(4, 40, 92)):
            who = src.n(len(specs))
            what = src.weighted([(6, 'ask'), (3, 'start'), (4, 'next'), (1, 'load')])
            if what == 'ask':
                kind = src.pick(['lookup', *asking.KINDS])
                steps.append([what, who, kind, src.pick(short if kind.startswith('suggest') else words)])
            elif what == 'start':
                kind = src.pick(asking.ITERATED)
                steps.append([what, who, kind, src.pick(short if kind.startswith('suggest') else words)])
            elif what == 'next':
                steps.append([what, src.n(4), src.weighted([(3, 1), (2, 2), (1, 5), (1, 1000)])])
            else:
                steps.append([what, who])
        return {'specs': specs, 'steps': steps, 'same_path': src.coin()}

    def run(self, case, ctx):    # pylint: disable=too-many-locals,too-many-branches
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        helper = asking.fresh()
        specs = case['specs']
        asked = [{} for _ in specs]
        for step in case['steps']:
            if step[0] in ('ask', 'start'):
                asked[step[1]][step[2], step[3]] = None
        for spec, table in zip(specs, asked):
            base = sp.write(spec, ctx.fresh_dir())
            res = helper.answers(base, list(table))
            if res is None or any(answer[0] != 'answer' for answer in res):
                raise Inconclusive      # other properties are about these
            table.update(zip(table, (answer[1] for answer in res)))

        folder = ctx.fresh_dir()

        def load(idx):
            where = folder if case['same_path'] else ctx.fresh_dir()
            return ctx.sut('loading the dictionary', Dictionary.from_files, sp.write(specs[idx], where))

        objects = [load(idx) for idx in range(len(specs))]
        before = [asking.snapshot(obj) for obj in objects]
        running = []
        yes = given = unfinished = 0

        def judge(idx, kind, word, got, whole=True):
            want = asked[idx][kind, word]
            if got != (want if whole else want[:len(got)]):
                raise Violation(f'{kind}({word!r}) answered {got!r} after other calls, {want!r} when asked alone '
                                f'(dictionary {idx}, steps {case["steps"]!r})')

        for step in case['steps']:
            if step[0] == 'ask':
                _, idx, kind, word = step
                got = ctx.sut(f'{kind}({word!r})', asking.ask, objects[idx], kind, word)
                judge(idx, kind, word, got)
                yes += got is True
                given += kind == 'suggest' and bool(got)
            elif step[0] == 'start':
                _, idx, kind, word = step
                running.append([idx, kind, word, ctx.sut(kind, asking.start, objects[idx], kind, word), []])
            elif step[0] == 'load':
                fresh = load(step[1])
                if asking.snapshot(fresh) != before[step[1]]:
                    raise Violation(f'dictionary {step[1]} loaded again has other data')
                objects[step[1]] = fresh
            elif running:
                pos = step[1] % len(running)
                idx, kind, word, iterator, seen = running[pos]
                done = False
                for _ in range(step[2]):
                    item = ctx.sut(f'{kind}({word!r})', next, iterator, running)
                    if item is running:
                        done = True
                        break
                    seen.append(item)
                    given += kind == 'suggest'
                judge(idx, kind, word, seen, done)
                if done:
                    running.pop(pos)
        unfinished = len(running)
        for idx, obj in enumerate(objects):
            after = asking.snapshot(obj)
            if after != before[idx]:
                diff = [name for name in after if after[name] != before[idx][name]]
                raise Violation(f'the data of dictionary {idx} were changed by the calls: {diff!r}')
        ctx.count('steps', len(case['steps']))
        ctx.count('dictionaries', len(specs))
        ctx.count('unfinished iterations', unfinished)
        if (len(specs) > 1 or unfinished) and (yes or given):
            ctx.nontrivial((specs, case['steps']))


CHECK = H01()
