from ._core import reactive, var, Reactive  # noqa: F401
