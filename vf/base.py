"""What a scenario is; importable by the symbolic side and by the real interpreter."""

VI = [0, 1, 2, 0, 1, 0]
VJ = [0, 1, 2, 1, 2, 2]
VW = [1, 1, 1, 2, 2, 2]
FULL = [[0, 3, 5], [3, 1, 4], [5, 4, 2]]


def relayout(v, how):
    """the same array contents stored differently in memory"""
    if isinstance(v, list):
        return [relayout(x, how) for x in v]
    if how is None or not hasattr(v, "strides") or not getattr(v, "ndim", 0):
        return v
    if how == "fortran":
        return v.copy(order="F")
    if how == "strided":
        return v.repeat(2, axis=-1)[..., ::2]
    if how == "reversed":
        return v[..., ::-1].copy()[..., ::-1]
    raise ValueError(how)


class Scenario:
    """inputs(S): symbolic inputs and domain; run(api, **inputs): drives the code under
    test (symbolically or for real) and returns named outputs; check(S, I, O): obligations."""

    id = "?"
    max_paths = 200
    max_validate = 4
    copy_inputs = True
    budget = None
    atol = 0.0          # absolute tolerance of the comparison with the real run
    layout = None       # storage of the array arguments: fortran, strided, reversed
    calls = ()          # outputs that count calls (not compared between batch sizes)
    optional = False    # time limits of this scenario leave the verdict to the others
    generic = False     # explore generic points only (stated in the bounds)

    def __init__(self, id, **kw):
        self.id = id
        self.__dict__.update(kw)

    def bounds(self):
        return ""

    def inputs(self, S):
        return {}

    def run(self, api, **I):
        raise NotImplementedError

    def check(self, S, I, O):
        pass
