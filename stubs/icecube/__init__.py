"""Minimal stand-in for the icecube software (not available offline).

Only data containers with the semantics that the repository relies on.
"""
from . import icetray, dataclasses  # noqa
