from typing import Any, Callable, Optional, Tuple
import flax.linen as nn
import jax.numpy as jnp


ACT = nn.gelu


class IdentityLayer(nn.Module):

  @nn.compact
  def __call__(self, x):
    return x


class AddPositionEmbs(nn.Module):
  posemb_init: Callable[..., Any]
  param_dtype: Any = jnp.float32

  @nn.compact
  def __call__(self, inputs):
    assert inputs.ndim == 3
    pe = self.param('pos_embedding', self.posemb_init, (1, inputs.shape[1], inputs.shape[2]), self.param_dtype)
    return inputs + pe


class MlpBlock(nn.Module):
  mlp_dim: int
  dtype: Any = jnp.float32
  param_dtype: Any = jnp.float32
  out_dim: Optional[int] = None
  dropout_rate: float = 0.1
  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)

  @nn.compact
  def __call__(self, inputs, *, deterministic):
    out_dim = inputs.shape[-1] if self.out_dim is None else self.out_dim
    x = nn.Dense(self.mlp_dim, dtype=self.dtype, param_dtype=self.param_dtype,
                 kernel_init=self.kernel_init, bias_init=self.bias_init)(inputs)
    x = ACT(x)
    x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
    x = nn.Dense(out_dim, dtype=self.dtype, param_dtype=self.param_dtype,
                 kernel_init=self.kernel_init, bias_init=self.bias_init)(x)
    return nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)


class VisionTransformer(nn.Module):
  num_classes: int = 10

  @nn.compact
  def __call__(self, inputs, *, train):
    raise NotImplementedError('stand-in')
