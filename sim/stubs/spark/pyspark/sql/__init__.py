from ._impl import Column, DataFrame, GroupedData, SparkSession, Window, WindowSpec
from .types import Row
from . import functions, types
from .._engine import NAMES as _N


def __getattr__(name):
    if name in _N["sql"]:
        from core import HarnessError
        raise HarnessError(f"stub: pyspark.sql.{name}")
    raise AttributeError(name)
