"""C14: MarkovMatrix is the distribution of the final score of the point-by-point process."""
from mc import chains, jets

PROPERTY = "C14"
RULE = ("Every size x number of steps x skew matrix x shape of the rates: the chain of scores is enumerated state by "
        "state with exact jets of the transition probabilities, and the value, the gradients and the Hessian blocks "
        "of the real function, by call, grad, hess and eval, are compared with it.")
ASSUMPTIONS = ["rates as the function asserts them: positive, sum per step below 1, equal shapes",
               "skew is a square array of the given size"]
ALPHA = (1.0, .5, 1.3)


def bounds(tier):
    big = tier == "thorough"
    return {"sizes": "1..5, 8; 6 (5 steps)", "steps": "1..6, 18" if big else "1..4, 18; 33 (size 3)", "skews": "size <= 2: all over %s; size 3: "
            "all single and double deviations from 1 (thorough: all over {1, .5}); larger: generic" % (ALPHA,),
            "shapes": "(), (2,), (2, 3)", "rates": chains.RATES, "tier": tier}


def square(w, n):
    return [w[k * n:(k + 1) * n] for k in range(n)]


def groups(tier):
    out = []
    for size, steps in [(s, t) for s in (1, 2, 3, 4, 5) for t in range(1, 7 if tier == "thorough" else 5)] + \
            [(8, 18), (3, 18), (4, 7), (2, 9), (6, 5), (3, 33)] + ([(5, 64), (9, 40)] if tier == "thorough" else []):
        out.append({"size": size, "steps": steps, "tier": tier})
    return out


def expand(g):
    n, tier = g["size"], g["tier"]
    if n <= 2:
        sk = chains.words(ALPHA, n * n)
    elif n == 3 and g["steps"] <= 6:
        sk = chains.words((1.0, .5), 9) if tier == "thorough" else chains.deviations(9)
        sk.append(chains.generic(9))
    else:
        sk = [chains.generic(n * n)] + (chains.deviations(n * n) if tier == "thorough" and n < 8 else [])
    for w in [None] + [square(w, n) for w in sk]:
        for shape in ((), (2,), (2, 3)):
            if n == 8 and shape == (2, 3):
                continue
            for salt in (0, 2):
                yield {"size": n, "steps": g["steps"], "skew": w, "shape": shape, "salt": salt}


def check(case):
    from maxlike.func import MarkovMatrix
    return chains.check(case, MarkovMatrix, jets.markov_matrix)
