#!/usr/bin/env python3
"""Builds the engine (the checks do so themselves when it is missing)."""
from symlib import build
print(build.engine())
