"""Pytree menus: the same flat vector presented in different structures."""
import numpy as np

# name -> number of leaves' shapes in order and builder
SPECS = {
    "leaf1": [(1,)],
    "leaf4": [(4,)],
    "mat": [(2, 3)],
    "dict": dict(w=(2, 2), b=(2,)),
    "tuple": ((3,), ()),
    "nested": dict(a=((2,), dict(c=(1, 2))), z=[(), (2,)]),
    "list": [(2,), (2,)],
}
SPECS["leaf1"] = (1,)
SPECS["leaf4"] = (4,)
SPECS["mat"] = (2, 3)


def _is_shape(s):
  return isinstance(s, tuple) and all(isinstance(i, int) for i in s)


def sizes(spec):
  if _is_shape(spec):
    return int(np.prod(spec)) if spec else 1
  if isinstance(spec, dict):
    return sum(sizes(spec[k]) for k in sorted(spec))
  return sum(sizes(s) for s in spec)


def size(name):
  return sizes(SPECS[name])


def build(name, flat, conv=lambda a: a):
  """Pytree of arrays from a flat vector, in jax's flattening order."""
  flat = np.asarray(flat)
  pos = [0]

  def go(spec):
    if _is_shape(spec):
      n = int(np.prod(spec)) if spec else 1
      a = flat[pos[0]:pos[0] + n].reshape(spec)
      pos[0] += n
      return conv(a)
    if isinstance(spec, dict):
      return {k: go(spec[k]) for k in sorted(spec)}
    return type(spec)(go(s) for s in spec)
  out = go(SPECS[name])
  assert pos[0] == flat.size, (name, flat.size)
  return out


def flat(tree):
  import jax
  return np.concatenate([np.asarray(l).reshape(-1) for l in jax.tree_util.tree_leaves(tree)])
