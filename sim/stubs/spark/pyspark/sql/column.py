from ._impl import Column
