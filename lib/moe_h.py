"""Shared helpers for the MoE harnesses: observe a dispatcher by its behaviour."""
import functools
import jax
import jax.numpy as jnp
import numpy as np
from . import sx


def observe(dispatcher, group_size, num_experts):
  """(D, W): what the dispatcher does, through its public dispatch/combine.

  D[e, c, s]: weight with which item s is put into buffer slot c of expert e.
  W[s, e, c]: weight with which item s receives the output of slot c of expert e.
  Leading group axis of size 1 everywhere.
  """
  eye = jnp.eye(group_size, dtype=jnp.float32)[None]
  d = dispatcher.dispatch(eye)                       # (E, G*C, S)
  c = d.shape[1]
  out = jnp.eye(num_experts * c, dtype=jnp.float32).reshape(num_experts, c, -1)
  w = dispatcher.combine(out)                        # (1, S, E*C)
  return d, w[0].reshape(group_size, num_experts, c)


def isin01(v):
  return sx.bor(sx.eq(v, 0), sx.eq(v, 1))


def count(conds):
  return sx.sumall(int(c) if isinstance(c, bool) else sx.as_fd(c) for c in conds)
