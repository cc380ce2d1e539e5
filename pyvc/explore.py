"""Path exploration: re-executes a contract body once per feasible branch history."""
from . import terms as T
from .norm import Env, Infeasible, TooBig


class PathLimit(Exception):
    pass


class Path:
    def __init__(self, env, prefix):
        self.env = env
        self.prefix = prefix
        self.taken = []
        self.decisions = []         # the conditions of the branches taken
        self.alts = []
        self.conds = []

    def quick(self, c):
        try:
            return self.env.nz.decide(c)
        except TooBig:
            return None

    def decide(self, c):
        d = self.quick(c)
        if d is not None:
            return d
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.env = self.env.assume(c, v)
            self.taken.append(v)
            self.decisions.append(c)
            self.conds.append((c, v))
            return v
        envs = {}
        for v in (True, False):
            try:
                envs[v] = self.env.assume(c, v)
            except Infeasible:
                pass
        if not envs:
            raise Infeasible()
        if len(envs) == 1:
            (v, e), = envs.items()
            self.env = e
            self.conds.append((c, v))
            return v
        self.alts.append(self.taken + [False])
        self.taken.append(True)
        self.decisions.append(c)
        self.conds.append((c, True))
        self.env = envs[True]
        return True


def explore(body, box, assume=(), maxpaths=4000):
    """Yield (path, result-or-exception) for every feasible path of body()."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > maxpaths:
            raise PathLimit("more than %d paths" % maxpaths)
        env = Env(box)
        try:
            for c in assume:
                env = env.assume(c, True)
        except Infeasible:
            return
        p = Path(env, prefix)
        old = T.set_ctx(p)
        try:
            try:
                r = ("ok", body(p))
            except Infeasible:
                r = None
            except T.Unsupported as e:
                r = ("unsupported", e)
            except RecursionError as e:
                r = ("exc", e)
            except Exception as e:
                r = ("exc", e)
        finally:
            T.set_ctx(old)
        stack.extend(p.alts)
        if r is not None:
            yield p, r
