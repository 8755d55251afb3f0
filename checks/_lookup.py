"""Common part of the lookup checks: ask, compare with the model."""

from vlib.engine import Violation


def compare(ctx, dictionary, model, words, skip=()):
    """Compares lookup with the model; returns (accepted, rejected) lists."""
    accepted, rejected = [], []
    for word in words:
        if word in skip:
            continue
        want = model.lookup(word)
        got = ctx.sut(f'lookup({word!r})', dictionary.lookup, word)
        if got is not want:
            raise Violation(f'lookup({word!r}) returned {got!r}, the dictionary says {want!r}')
        (accepted if want else rejected).append(word)
    return accepted, rejected
