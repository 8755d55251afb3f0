"""
run.py check <property>     one check (VERIF_SEED, VERIF_TIER from the environment)
run.py replay <file>        re-run one saved case
"""
import os
import pathlib
import sys

sys.dont_write_bytecode = True
HERE = pathlib.Path(__file__).resolve().parent
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [str(HERE), REPO]


def main():
    from vlib import engine   # pylint: disable=import-outside-toplevel
    try:
        import spylls.hunspell   # pylint: disable=import-outside-toplevel
    except Exception as exc:   # pylint: disable=broad-except
        print(f'can not import spylls from {REPO}: {exc!r}')
        return 2
    if not os.path.realpath(spylls.hunspell.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print(f'spylls was imported from {spylls.hunspell.__file__}, not from {REPO}')
        return 2
    if sys.argv[1] == 'check':
        tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        seed = int(os.environ.get('VERIF_SEED') or 1)
        return engine.run_check(sys.argv[2], tier, seed)
    if sys.argv[1] == 'replay':
        return engine.replay_file(sys.argv[2])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
