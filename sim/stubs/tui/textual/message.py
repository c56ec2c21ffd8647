from ._core import Message  # noqa: F401
