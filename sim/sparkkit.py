"""Helpers of the checks that execute generated code on the Spark stand-in."""
import ast, math

from core import HarnessError


def execute(code):
    """Runs generated code as its user would and gives the data frame of its last statement."""
    import pyspark._engine as E
    from pyspark.sql import functions as F, SparkSession
    from spl_transpiler.runtime import commands, functions
    t = ast.parse(code)
    if not t.body:
        raise HarnessError("stub: an empty query has no data frame")
    last = t.body.pop()
    ns = dict(F=F, commands=commands, functions=functions, spark=SparkSession.builder.getOrCreate())
    exec(compile(t, "generated", "exec"), ns)
    if not hasattr(last, "value"):
        raise HarnessError("stub: the generated code does not end in an expression")
    return eval(compile(ast.Expression(last.value), "generated", "eval"), ns)


def canon(v):
    """A comparable form of a value: numbers by value, floats rounded to 10 digits, lists kept in order."""
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float)) or type(v).__name__ == "Decimal":
        f = float(v)
        if math.isnan(f):
            return ("num", "nan")
        if math.isinf(f):
            return ("num", repr(f))
        return ("num", 0.0 if f == 0 else float(f"{f:.10g}"))
    if isinstance(v, (list, tuple)) and not hasattr(v, "__fields__"):
        return [canon(x) for x in v]
    if hasattr(v, "asDict"):
        return ("row", sorted((k, canon(x)) for k, x in v.asDict().items()))
    return (type(v).__name__, str(v))


def table_of(df):
    """(column names, list of rows) with canonical values, in the order collected."""
    return list(df.columns), [[canon(x) for x in r] for r in df.collect()]


def bag(rows):
    return sorted(rows, key=repr)


def chain(e):
    out = []
    while e is not None and len(out) < 30 and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out
