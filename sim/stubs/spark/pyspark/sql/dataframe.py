from ._impl import DataFrame
