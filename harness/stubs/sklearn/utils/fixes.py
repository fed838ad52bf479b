from joblib import delayed  # noqa: F401
