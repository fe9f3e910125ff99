"""Construction of the library's objects from the alphabets (public API only)."""
import numpy as np

from sigmaepsilon.math.linalg import (
    CartesianFrame,
    RectangularFrame,
    ReferenceFrame,
    Tensor,
    Tensor2,
    Tensor2x3,
    Tensor4,
    Tensor4x3,
    Vector,
)

from . import ref

FCLS = {"ref": ReferenceFrame, "rect": RectangularFrame, "cart": CartesianFrame}

# kind -> (class, rank, leading shape, extra keyword arguments, dims or None)
TK = {
    "v": (Vector, 1, (), {}, None),
    "t2": (Tensor2, 2, (), {}, None),
    "t4": (Tensor4, 4, (), {}, None),
    "g1": (Tensor, 1, (), {}, None),
    "g2": (Tensor, 2, (), {}, None),
    "g3": (Tensor, 3, (), {}, None),
    "g5": (Tensor, 5, (), {}, None),
    "g6": (Tensor, 6, (), {}, None),
    "vb": (Vector, 1, (2,), {"bulk": True}, None),
    "vb5": (Vector, 1, (5,), {"bulk": True}, None),
    "t2b": (Tensor2, 2, (2,), {"bulk": True}, None),
    "t2b5": (Tensor2, 2, (5,), {"bulk": True}, None),
    "t4b": (Tensor4, 4, (2,), {"bulk": True}, None),
    "t2x3": (Tensor2x3, 2, (), {}, (3,)),
    "t2x3b": (Tensor2x3, 2, (2,), {}, (3,)),
    "t2x3n": (Tensor2x3, 2, (2, 3), {}, (3,)),
    "t2x3nn": (Tensor2x3, 2, (2, 2, 3), {}, (3,)),
    "t4x3": (Tensor4x3, 4, (), {}, (3,)),
    "t4x3b": (Tensor4x3, 4, (2,), {}, (3,)),
    "t4x3n": (Tensor4x3, 4, (2, 2), {}, (3,)),
}


def rank_of(kind):
    return TK[kind][1]


CON = ["sym", "anti", "diag", "iso", "first", "last", "ones", "same", "zero", "big", "small", "lastzero", "hetero"]


def comp_array(kind, dim, seed=0, con=None):
    """components: without any regularity, or of a special content"""
    cls, rank, lead, kw, dims = TK[kind]
    shape = lead + (dim,) * rank
    a = ref.mixed(shape, seed if con != "same" else 0)
    nl = len(lead)
    if not con or con == "same":
        return a
    rev = tuple(range(nl)) + tuple(range(len(shape) - 1, nl - 1, -1))
    if con == "sym":
        a = a + a.transpose(rev)
        if rank == 4:
            a = a + a.swapaxes(-1, -2)
            a = a + a.swapaxes(-3, -4)
    elif con == "anti":
        a = a - a.transpose(rev) if rank > 1 else a * np.resize([1.0, -1.0], dim)
    elif con in ("diag", "iso"):
        d = np.zeros(shape)
        for i in range(dim):
            ix = (Ellipsis,) + (i,) * rank
            d[ix] = a[ix] if con == "diag" else 1.0
        a = d
    elif con in ("first", "last"):
        d = np.zeros(shape)
        ix = (Ellipsis,) + ((0 if con == "first" else -1),) * rank
        d[ix] = 1.5
        a = d
    elif con == "ones":
        a = np.ones(shape)
    elif con == "zero":
        a = np.zeros(shape)
    elif con == "big":
        a = a * 2.0**30
    elif con == "small":
        a = a * 2.0**-30
    elif con == "lastzero":
        a[..., -1] = 0.0
    elif con == "hetero":  # very different magnitudes in one object
        a = a * 10.0 ** (np.arange(dim) * -3.0)
    return a


def unit_of(con):
    return {"big": 2.0**30, "small": 2.0**-30}.get(con, 1.0)


def make_tensor(kind, frame, arr):
    cls, rank, lead, kw, dims = TK[kind]
    return cls(np.array(arr), frame=frame, **kw)


def make_frame(cls, axes):
    return FCLS[cls](np.array(axes))
