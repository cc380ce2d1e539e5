"""A quick test of the provers themselves: what must be proved is, what is false is not."""
import math
import numpy as np
from . import terms as T, evalnp, sweep
from .norm import Env, prove_equal, Budget


def run():
    x, y = T.var("x"), T.var("y")
    env = Env({"x": (0.5, 4.0), "y": (-1.0, 2.0)})
    good = [
        (T.log(T.mul(T.exp(y), x)), T.add(y, T.log(x))),
        (T.maximum(x, T.const(2.0)), T.ite(T.lt(x, T.const(2.0)), T.const(2.0), x)),
        (T.square(T.add(x, y)), T.add(T.add(T.square(x), T.square(y)), T.mul(T.const(2.0), T.mul(x, y)))),
        (T.sqrt(T.square(x)), x),
        (T.add(T.square(T.sin(x)), T.square(T.cos(x))), T.const(1.0)),
        (T.mul(T.power(T.sin(x), T.const(3.0)), y), T.mul(T.mul(y, T.sin(x)), T.sub(T.const(1.0), T.square(T.cos(x))))),
        (T.cos(T.sub(T.const(math.pi / 2), x)), T.sin(x)),
        (T.sin(T.add(T.const(3 * math.pi / 2), x)), T.neg(T.cos(x))),
        (T.cos(T.add(x, T.const(math.pi))), T.neg(T.cos(x))),
    ]
    bad = [
        (T.log(T.mul(T.exp(y), x)), T.add(y, T.mul(T.const(1.00001), T.log(x)))),
        (T.maximum(x, T.const(2.0)), T.ite(T.lt(x, T.const(2.001)), T.const(2.001), x)),
        (T.sqrt(T.square(y)), y),
        (T.cos(T.add(T.const(math.pi / 2), x)), T.sin(x)),
        (T.sin(T.sub(x, T.const(math.pi))), T.sin(x)),
    ]
    for a, b in good:
        if not prove_equal(a, b, env, 1e-9, Budget(50))[0]:
            print("selftest: not proved", T.show(a), T.show(b))
            return 1
    for a, b in bad:
        if prove_equal(a, b, env, 1e-9, Budget(50))[0]:
            print("selftest: proved a falsehood", T.show(a), T.show(b))
            return 1
    ok, _, _ = evalnp.prove_nonneg([T.sub(T.exp(x), T.add(x, T.const(1.0)))], env.box, tol=0.0, maxboxes=20000)
    no, _, _ = evalnp.prove_nonneg([T.sub(T.exp(x), T.add(x, T.const(1.3)))], env.box, tol=0.0, maxboxes=20000)
    if not ok or no:
        print("selftest: interval prover", ok, no)
        return 1
    print("selftest ok")
    return 0
