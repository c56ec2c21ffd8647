"""Stand-in for pyspark: see _engine.py."""
__version__ = "4.3.0"
from . import errors  # noqa
