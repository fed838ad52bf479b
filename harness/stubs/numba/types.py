from .core.types import *
