"""Error classes of the stand-in, with the names and hierarchy of the real package."""


class PySparkException(Exception):
    def __init__(self, message=None, errorClass=None, messageParameters=None, **k):
        self._m, self._c = message, errorClass
        super().__init__(f"[{errorClass}] {message}" if errorClass else message)

    def getCondition(self):
        return self._c

    getErrorClass = getCondition


class AnalysisException(PySparkException):
    pass


class ParseException(AnalysisException):
    pass


class SparkRuntimeException(PySparkException):
    pass


class ArithmeticException(PySparkException):
    pass


class NumberFormatException(PySparkException):
    pass


class ArrayIndexOutOfBoundsException(PySparkException):
    pass


class PythonException(PySparkException):
    pass


class IllegalArgumentException(PySparkException):
    pass


class QueryExecutionException(PySparkException):
    pass


class SparkConnectException(PySparkException):
    pass


class PySparkTypeError(PySparkException, TypeError):
    pass


class PySparkValueError(PySparkException, ValueError):
    pass


class PySparkAttributeError(PySparkException, AttributeError):
    pass


class PySparkRuntimeError(PySparkException, RuntimeError):
    pass
