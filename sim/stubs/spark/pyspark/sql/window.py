from ._impl import Window, WindowSpec
