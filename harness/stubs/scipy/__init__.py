__version__ = "1.10.0"
