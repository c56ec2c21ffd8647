from ._core import on, SIM  # noqa: F401
from ._core import gap as _gap
from core import HarnessError as _HE


def work(*a, **k):
    _gap("@work")


class _Log:
    def __call__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


log = _Log()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise _HE(f"stub: textual.{name}")
