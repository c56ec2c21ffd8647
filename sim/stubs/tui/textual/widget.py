from ._core import Widget  # noqa: F401
