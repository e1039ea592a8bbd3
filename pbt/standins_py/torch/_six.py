import collections.abc as container_abcs  # noqa: F401
inf = float('inf')
nan = float('nan')
string_classes = (str, bytes)
int_classes = int
