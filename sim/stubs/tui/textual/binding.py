from dataclasses import dataclass


@dataclass(frozen=True)
class Binding:
    key: str
    action: str
    description: str = ""
    show: bool = True
    key_display: str = None
    priority: bool = False
    tooltip: str = ""
    id: str = None
