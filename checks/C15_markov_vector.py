"""C15: MarkovVector is the distribution of the final score difference of the point-by-point process."""
from mc import chains, jets

PROPERTY = "C15"
RULE = ("Every size x number of steps x skew vector x shape of the rates: the chain of score differences is enumerated "
        "state by state with exact jets of the transition probabilities, and the value, the gradients and the Hessian "
        "blocks of the real function, by call, grad, hess and eval, are compared with it.")
ASSUMPTIONS = ["rates as the function asserts them: positive, sum per step below 1, equal shapes",
               "skew is an array of length 2 * size - 1"]
ALPHA = (1.0, .5, 1.3)


def bounds(tier):
    big = tier == "thorough"
    return {"sizes": "1..5, 8; 6 (5 steps)", "steps": "1..6, 18" if big else "1..4, 18; 33 (size 3)", "skews": "size <= 2: all over %s; size 3: "
            "all single and double deviations from 1 (thorough: all over the alphabet); larger: generic" % (ALPHA,),
            "shapes": "(), (2,), (2, 3)", "rates": chains.RATES, "tier": tier}


def groups(tier):
    out = []
    for size, steps in [(s, t) for s in (1, 2, 3, 4, 5) for t in range(1, 7 if tier == "thorough" else 5)] + \
            [(8, 18), (3, 18), (4, 7), (2, 9), (6, 5), (3, 33)] + ([(5, 64), (9, 40)] if tier == "thorough" else []):
        out.append({"size": size, "steps": steps, "tier": tier})
    return out


def expand(g):
    n, tier = 2 * g["size"] - 1, g["tier"]
    if g["size"] <= 2:
        sk = chains.words(ALPHA, n)
    elif g["size"] == 3 and g["steps"] <= 6:
        sk = chains.words(ALPHA, n) if tier == "thorough" else chains.deviations(n)
        sk.append(chains.generic(n))
    else:
        sk = [chains.generic(n)] + (chains.deviations(n) if tier == "thorough" and n < 15 else [])
    for w in [None] + sk:
        for shape in ((), (2,), (2, 3)):
            for salt in (0, 2):
                yield {"size": g["size"], "steps": g["steps"], "skew": w, "shape": shape, "salt": salt}


def check(case):
    from maxlike.func import MarkovVector
    return chains.check(case, MarkovVector, jets.markov_vector)
