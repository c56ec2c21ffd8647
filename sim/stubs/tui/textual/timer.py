from ._core import Timer  # noqa: F401
