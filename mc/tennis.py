"""Reference model of the tennis scoring rules: explicit-state scoring automata.

A game: first to 4 points with a margin of 2; from deuce (3-3) two points in a row.
A tie-break: first to 7 points with a margin of 2; from 6-6 two points in a row.
A set: first to 6 games with a margin of 2, 7-5, and a tie-break at 6-6 (7-6).

Every path of the automaton up to absorption (or deuce, where the standard absorbing two-state argument
is used) is enumerated with jets, so derivatives are exact."""
import numpy as np
from . import jets


def race(p, n, P):
    """first to n with margin 2; result: jets of winning n-0 .. n-(n-2), and after (n-1)-(n-1)"""
    q = jets.scale(p, -1.0, 1.0)
    dist = {(0, 0): None}
    wins = {}
    # breadth-first over all scores; every point either way
    for _ in range(2 * n - 2):
        nxt = {}
        for (x, y), m in dist.items():
            for pr, t in ((p, (x + 1, y)), (q, (x, y + 1))):
                w = pr if m is None else jets.mul(m, pr)
                if t[0] == n and t[1] <= n - 2:
                    wins[t] = w if t not in wins else jets.add(wins[t], w)
                elif t[1] == n and t[0] <= n - 2:
                    continue
                else:
                    nxt[t] = w if t not in nxt else jets.add(nxt[t], w)
        dist = nxt
    assert set(dist) == {(n - 1, n - 1)}
    deuce = dist[(n - 1, n - 1)]
    # from deuce: win = p^2 + 2pq * win
    pp = jets.mul(p, p)
    loop = jets.scale(jets.mul(p, q), -2.0, 1.0)
    win = jets.mul(deuce, jets.mul(pp, jets.recip(loop)))
    return [wins[(n, y)] for y in range(n - 1)] + [win]


def race_set(p, t, P):
    q = jets.scale(p, -1.0, 1.0)
    dist = {(0, 0): None}
    wins = {}
    for _ in range(12):
        nxt = {}
        for (x, y), m in dist.items():
            for pr, s in ((p, (x + 1, y)), (q, (x, y + 1))):
                w = pr if m is None else jets.mul(m, pr)
                a, b = s
                if (a == 6 and b <= 4) or (a == 7 and b == 5):
                    wins[s] = w if s not in wins else jets.add(wins[s], w)
                elif (b == 6 and a <= 4) or (b == 7 and a == 5):
                    continue
                else:
                    nxt[s] = w if s not in nxt else jets.add(nxt[s], w)
        dist = nxt
    assert set(dist) == {(6, 6)}
    tie = jets.mul(dist[(6, 6)], t)
    return [wins[(6, y)] for y in range(5)] + [wins[(7, 5)], tie]


def evaluate(kind, args, P):
    if kind == "Game":
        return jets.stack(race(args[0], 4, P), 1)
    if kind == "TB":
        return jets.stack(race(args[0], 7, P), 1)
    return jets.stack(race_set(args[0], args[1], P), 1)
