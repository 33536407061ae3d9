def load(path):
  raise NotImplementedError('stand-in')
