"""Where dictionaries are looked for."""

import os
import zipfile

from vlib import spec as sp
from vlib.engine import Check, Violation

NAMES = ['d', 'en_US', 'ru', 'sv_SE', 'de-AT', 'aff', 'x.aff', 'd.dic', 'a b', 'd\xe9', 'en']
FOLDERS = ['one', 'two', 'three.aff', 'f\xf6r', 'x y']
BUNDLED = {'en_US': ('kittens', 'kitens'), 'ru': ('котята', 'котяты'), 'sv_SE': ('kattunge', 'katunge')}
MARKS = ['abc', 'bcd', 'cde', 'def', 'efg', 'fgh', 'ghi', 'hij', 'ijk', 'jkl', 'klm', 'lmn', 'mno', 'nop', 'opq', 'pqr']


class F01(Check):
    id = 'F01'
    rule = ('folders with at least two different dictionaries, one of them found and one name found nowhere; counted once per '
            'distinct arrangement')
    assumptions = ['the list of system folders is replaced by scratch folders', 'no wildcard characters in names']
    quick_n = 200
    thorough_n = 2000
    min_nontrivial = 500

    def gen(self, src):
        folders = src.shuffled(FOLDERS)[:src.rng_int(1, 4)]
        names = src.sample(NAMES, src.rng_int(1, 3))
        marks = src.shuffled(MARKS)
        stored = [[folder, name, marks.pop()] for folder in folders for name in names if src.pct(60)]
        listed = src.shuffled([*folders, *src.sample(['missing', 'no/where'], src.n(3))])
        return {'folders': folders, 'stored': stored, 'listed': listed, 'ask': [*names, src.pick(['absent', 'D', 'd.aff', ''])],
                'cwd': src.pick(folders), 'bundled': src.pick(list(BUNDLED)) if src.one_in(25) else None,
                'zip': [src.coin(), src.coin(), src.coin()]}

    def run(self, case, ctx):
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        root = ctx.fresh_dir()
        there = {}
        for folder in case['folders']:
            os.mkdir(os.path.join(root, folder))
        for folder, name, mark in case['stored']:
            sp.write(dict(sp.empty(), words=[[mark, [], []]]), os.path.join(root, folder), name=name)
            there[folder, name] = mark

        class Local(Dictionary):
            PATHES = [os.path.join(root, folder) for folder in case['listed']]

        def tried(func, arg):
            def either():
                try:
                    return func(arg)
                except Exception as exc:     # pylint: disable=broad-except
                    return exc
            return ctx.sut('loading', either)

        def judge(what, got, mark, error):
            if mark is None:
                if not isinstance(got, error):
                    raise Violation(f'{what} with {case!r} gave {got!r}, nothing is there')
            elif isinstance(got, Exception):
                raise Violation(f'{what} with {case!r} failed with {got!r}, {mark!r} should be found')
            elif [word for word in MARKS if got.lookup(word)] != [mark]:
                raise Violation(f'{what} with {case!r} loaded the dictionary with '
                                f'{[word for word in MARKS if got.lookup(word)]!r} instead of {mark!r}')

        found = absent = 0
        for name in case['ask']:
            marks = [there[folder, name] for folder in case['listed'] if (folder, name) in there]
            judge(f'from_system({name!r})', tried(Local.from_system, name), marks[0] if marks else None, LookupError)
            found += bool(marks)
            absent += not marks
        before = os.getcwd()
        os.chdir(os.path.join(root, case['cwd']))
        try:
            for name in case['ask']:
                mark = there.get((case['cwd'], name))
                if mark is not None or name not in Dictionary.DISTRIBUTED:
                    judge(f'from_files({name!r})', tried(Dictionary.from_files, name), mark, OSError)
            for folder in case['folders']:
                for name in case['ask']:
                    for path in (os.path.join(root, folder, name), os.path.join('..', folder, name)):
                        judge(f'from_files({path!r})', tried(Dictionary.from_files, path), there.get((folder, name)), OSError)
            name = case['bundled']
            if name and (case['cwd'], name) not in there:
                got = tried(Dictionary.from_files, name)
                if isinstance(got, Exception) or [got.lookup(word) for word in BUNDLED[name]] != [True, False]:
                    raise Violation(f'from_files({name!r}) did not load the bundled dictionary: {got!r}')
                ctx.count('bundled')
        finally:
            os.chdir(before)
        self.archives(case, root, there, tried, judge)
        if len(there) > 1 and found and absent:
            ctx.nontrivial(case)

    @staticmethod
    def archives(case, root, there, tried, judge):
        from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
        path = os.path.join(root, 'x.zip')
        judge('from_zip of no file', tried(Dictionary.from_zip, path), None, OSError)
        for (folder, name), mark in list(there.items())[:1]:
            with zipfile.ZipFile(path, 'w') as arch:
                for ext, wanted in zip(('.txt', '.aff', '.dic'), case['zip']):
                    if wanted and ext == '.txt':
                        arch.writestr('readme.txt', 'abc')
                    elif wanted:
                        arch.write(os.path.join(root, folder, name) + ext, name + ext)
            before = os.getcwd()
            os.chdir(root)
            try:
                for path in (path, 'x.zip'):
                    judge(f'from_zip({path!r}) with {case["zip"]!r}', tried(Dictionary.from_zip, path),
                          mark if all(case['zip'][1:]) else None, Exception)
            finally:
                os.chdir(before)


CHECK = F01()
