"""Makes hyperion.torch importable with the stand-in of PyTorch (which is not installed)."""
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standins_py')
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import torch       # noqa: E402
assert torch.__file__.startswith(HERE), torch.__file__
