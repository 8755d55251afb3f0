"""
Answers questions about dictionaries in a process of its own (started with another hash seed).

One request per line (JSON): {"base": path without extension, "questions": [[kind, word], ...]}.
"""

import json
import os
import pathlib
import subprocess
import sys


class Server:
    def __init__(self, hash_seed):
        here = pathlib.Path(__file__).resolve().parent.parent
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        self.process = subprocess.Popen([sys.executable, '-m', 'vlib.server'], cwd=here, env=env,   # pylint: disable=consider-using-with
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding='ascii')

    def answers(self, base, questions):
        """[answer] (JSON values); an exception is the answer {'raised': text}."""
        print(json.dumps({'base': base, 'questions': questions}), file=self.process.stdin, flush=True)
        line = self.process.stdout.readline()
        if not line:
            raise RuntimeError('the server process died')
        return json.loads(line)


def main():
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
    from vlib import asking   # pylint: disable=import-outside-toplevel
    for line in sys.stdin:
        request = json.loads(line)
        try:
            dictionary = Dictionary.from_files(request['base'])
        except Exception as exc:   # pylint: disable=broad-except
            print(json.dumps([{'raised': repr(exc)} for _ in request['questions']]), flush=True)
            continue
        res = []
        for kind, word in request['questions']:
            try:
                res.append(asking.ask(dictionary, kind, word))
            except Exception as exc:   # pylint: disable=broad-except
                res.append({'raised': repr(exc)})
        print(json.dumps(res), flush=True)


if __name__ == '__main__':
    main()
