from ._core import Event, Mount, Key, Ready  # noqa: F401
