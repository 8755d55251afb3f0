"""Questions to a dictionary in plain data, and a helper process which answers each of them on an untouched object."""

import os
import pickle
import signal
import struct

CHILD_CPU_LIMIT = 60.0


def affix(item):
    return None if item is None else [item.flag, item.strip, item.add, item.condition, item.crossproduct, sorted(item.flags)]


def form(item):
    """Word form (analysis) as plain data."""
    if hasattr(item, 'parts'):
        return [form(part) for part in item.parts]
    word = item.in_dictionary
    return [item.text, item.stem, affix(item.prefix), affix(item.prefix2), affix(item.suffix2), affix(item.suffix),
            None if word is None else [word.stem, sorted(word.flags), {key: list(val) for key, val in word.data.items()}]]


def start(dictionary, kind, word):
    """Iterator for the questions answered one by one."""
    if kind == 'suggest':
        return dictionary.suggest(word)
    if kind == 'forms':
        return map(form, dictionary.lookuper.good_forms(word))
    if kind == 'suggestions':
        return map(repr, dictionary.suggester.suggestions(word))
    raise ValueError(kind)


def ask(dictionary, kind, word):
    if kind == 'lookup':
        return dictionary.lookup(word)
    if kind == 'lookup exact':
        return dictionary.lookuper(word, capitalization=False)
    if kind == 'lookup suggestible':
        return dictionary.lookuper(word, allow_nosuggest=False)
    return list(start(dictionary, kind, word))


ITERATED = ['suggest', 'forms', 'suggestions']
KINDS = ['lookup', 'lookup exact', 'lookup suggestible', *ITERATED]


# -- answers of objects without any history -------------------------------------------------------------------------

def _send(fd, value):
    data = pickle.dumps(value)
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    def exactly(num):
        res = b''
        while len(res) < num:
            part = os.read(fd, num - len(res))
            if not part:
                return None
            res += part
        return res
    size = exactly(8)
    if size is None:
        return None
    data = exactly(struct.unpack('>Q', size)[0])
    return None if data is None else pickle.loads(data)


def _in_child(func, *args):
    """Result of the function in a forked process; ('died',) if it gave none."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, CHILD_CPU_LIMIT)
            _send(wfd, func(*args))
            code = 0
        finally:
            os._exit(code)   # pylint: disable=protected-access
    os.close(wfd)
    res = _receive(rfd)
    os.close(rfd)
    os.waitpid(pid, 0)
    return res if res is not None else ('died',)


def _one(dictionary, kind, word):
    try:
        return ('answer', ask(dictionary, kind, word))
    except Exception as exc:   # pylint: disable=broad-except
        return ('raised', f'{type(exc).__name__}: {exc}')


def _dictionary(base, questions):
    from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
    try:
        dictionary = Dictionary.from_files(base)
    except Exception as exc:   # pylint: disable=broad-except
        return ('raised', f'{type(exc).__name__}: {exc}')
    return ('answers', [_in_child(_one, dictionary, kind, word) for kind, word in questions])


class Fresh:
    """The process: forked before the code under test did anything, it forks one child for every question."""

    def __init__(self):
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                os.close(req_w)
                os.close(res_r)
                while True:
                    request = _receive(req_r)
                    if request is None:
                        break
                    _send(res_w, _in_child(_dictionary, *request))
            finally:
                os._exit(0)   # pylint: disable=protected-access
        os.close(req_r)
        os.close(res_w)
        self.out, self.inp = req_w, res_r

    def answers(self, base, questions):
        """[('answer', value) | ('raised', text) | ('died',)] or None if the dictionary was not loaded."""
        _send(self.out, (base, questions))
        res = _receive(self.inp)
        if res is None:
            raise RuntimeError('the helper process died')
        return res[1] if res[0] == 'answers' else None


_FRESH = None


def fresh():
    global _FRESH   # pylint: disable=global-statement
    if _FRESH is None:
        _FRESH = Fresh()
    return _FRESH


def snapshot(dictionary):
    """The loaded data (documented attributes)."""
    from checks.r04 import DEFAULT, read   # pylint: disable=import-outside-toplevel
    words = [(word.stem, sorted(word.flags), {key: list(val) for key, val in word.data.items()}, list(word.alt_spellings),
              word.captype.name) for word in dictionary.dic.words]
    stems = {name: {stem: [word.stem for word in found] for stem, found in getattr(dictionary.dic, name, {}).items()}
             for name in ('index', 'lowercase_index')}
    return {'words': words, **stems, **{name: read(dictionary.aff, name) for name in DEFAULT}}
