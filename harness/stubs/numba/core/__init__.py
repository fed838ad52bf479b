from . import errors, types  # noqa: F401
from .. import config  # noqa: F401
