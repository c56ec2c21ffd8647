from ._impl import SparkSession
