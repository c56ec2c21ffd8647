from typing import Iterable
from ._core import App, Widget  # noqa: F401
ComposeResult = Iterable[Widget]
