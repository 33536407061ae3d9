import flax.linen as nn


class MlpMixer(nn.Module):
  num_classes: int = 10

  @nn.compact
  def __call__(self, inputs, *, train):
    raise NotImplementedError('stand-in')
