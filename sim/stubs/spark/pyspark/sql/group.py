from ._impl import GroupedData
