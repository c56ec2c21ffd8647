from ._core import Widget


class Container(Widget):
    pass


class Horizontal(Container):
    pass


class Vertical(Container):
    pass


class VerticalScroll(Container):
    pass


class HorizontalScroll(Container):
    pass


class ScrollableContainer(Container):
    pass


class Center(Container):
    pass


class Middle(Container):
    pass


class Grid(Container):
    pass


class HorizontalGroup(Container):
    pass


class VerticalGroup(Container):
    pass
