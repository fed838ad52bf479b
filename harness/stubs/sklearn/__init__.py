"""Stand-in for the parts of scikit-learn (<1.3) convst uses; contracts follow the scikit-learn sources."""
__version__ = "1.2.2"
from .base import clone  # noqa: E402,F401
