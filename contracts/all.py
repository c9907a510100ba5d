import contracts.legacy  # noqa: F401  (imports every other contract module)
