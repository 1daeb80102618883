"""Canonical deep content of k2/torch objects, read through their accessors."""
import hashlib

import torch
import k2
import _k2


def tensor(t):
    t = t.detach()
    b = t.contiguous().reshape(-1)
    if b.dtype == torch.bool:
        b = b.to(torch.uint8)
    return ('t', str(t.dtype), tuple(t.shape), b.numpy().tobytes())


def shape(s):
    return ('shape', s.num_axes, tuple(tuple(s.row_splits(a).tolist()) for a in range(1, s.num_axes)))


def canon(x, attrs=True):
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, float):
        return ('f', x.hex() if x == x else 'nan')
    if isinstance(x, torch.Tensor):
        return tensor(x) + (x.requires_grad,)
    if isinstance(x, k2.RaggedTensor):
        return ('rag', shape(x.shape), tensor(x.values), x.requires_grad)
    if isinstance(x, k2.RaggedShape):
        return shape(x)
    if isinstance(x, k2.Fsa):
        d = []
        if attrs:
            for n, v in x.named_tensor_attr():
                d.append((n, canon(v)))
            for n, v in x.named_non_tensor_attr():
                d.append((n, repr(v)))
        a = x.arcs
        return ('fsa', shape(a.shape()), tensor(a.values()), x.requires_grad, tuple(sorted(d)))
    if isinstance(x, k2.DenseFsaVec):
        d = x.dense_fsa_vec
        return ('dense', shape(d.shape()), tensor(x.scores), tuple(x.duration.tolist()))
    if isinstance(x, _k2.RaggedArc):
        return ('ragarc', shape(x.shape()), tensor(x.values()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(y, attrs) for y in x)
    if isinstance(x, dict):
        return tuple((k, canon(v, attrs)) for k, v in sorted(x.items()))
    if isinstance(x, k2.Nbest):
        return ('nbest', canon(x.fsa), canon(x.shape), canon(getattr(x, 'kept_path', None)))
    if isinstance(x, k2.SymbolTable):
        return ('sym', tuple(sorted(x._id2sym.items())), x.eps)
    if isinstance(x, (torch.dtype, torch.device)):
        return str(x)
    return ('?', type(x).__name__)


def digest(x):
    return hashlib.md5(repr(canon(x)).encode()).hexdigest()
