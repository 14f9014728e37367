"""Two calls on the same object: the second answer depends on the second argument only, the first answer survives the second call."""
from vp.harness import Eq


def twice(ctx, op, n, spec, make=None, flat=list, kinds=2):
    """op(x) -> result;  spec(result, values of the argument).  Either the same array is evaluated again after it was changed in
    place, or another array is evaluated while the first result is kept."""
    make = make or (lambda name: ctx.vec(name, n))
    x, y = make("x"), make("y")
    y0 = y.copy()
    same = ctx.choose("same array", kinds)
    r1 = op(x)
    keep = list(flat(r1))
    if same:
        x[:] = y
        r2 = op(x)
    else:
        r2 = op(y)
        ctx.check("earlier result unchanged by a later call", Eq(list(flat(r1)), keep))
    spec(r2, y0)
