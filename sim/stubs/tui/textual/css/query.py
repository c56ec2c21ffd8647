from .._core import NoMatches, TooManyMatches, WrongType, QueryError, DOMQuery, InvalidQueryFormat  # noqa: F401
