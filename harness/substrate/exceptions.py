"""Stand-in for ``lsst.pex.exceptions``: the exception hierarchy."""
import builtins


class Exception(builtins.Exception):
    pass


class LogicError(Exception):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):
    pass


class UnderflowError(RuntimeError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class MemoryError(RuntimeError, builtins.MemoryError):
    pass


class IoError(RuntimeError, builtins.IOError):
    pass


class TypeError(LogicError, builtins.TypeError):
    pass
