"""z3 lives in the tools venv; append it after the project's own packages."""
import os
import sys
_site = os.environ.get('VERIF_SITE', '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
if _site not in sys.path:
  sys.path.append(_site)
import z3  # noqa
# Keep only z3: nothing else may be picked up from the tools venv.
sys.path.remove(_site)


def load_sympy():
  """sympy (and mpmath) from the tools venv."""
  if 'sympy' not in sys.modules:
    sys.path.append(_site)
    try:
      import sympy  # noqa
    finally:
      sys.path.remove(_site)
  return sys.modules['sympy']
