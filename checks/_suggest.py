"""Common part of the suggestion checks."""

from vlib import spec as sp
from vlib.engine import Violation
from vlib.smodel import SuggestModel


def prepare(ctx, spec):
    model = SuggestModel(spec)
    return model, sp.load(ctx, spec)


def ask(ctx, dictionary, word):
    return ctx.sut(f'suggest({word!r})', lambda: list(dictionary.suggest(word)))


def compare(ctx, dictionary, model, word):
    """Compares the whole list with the model; returns [(text, source)]."""
    want = model.suggest(word)
    texts = [text for text, _ in want]
    got = ask(ctx, dictionary, word)
    if got != texts:
        raise Violation(f'suggest({word!r}) returned {got!r}, documented: {want!r}')
    for _, source in want:
        ctx.count(f'suggestions by {source}')
    return want
