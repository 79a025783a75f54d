#!/usr/bin/env python3
"""Builds the parts of the framework that do not depend on /repo (the TLC operator overrides)."""
import run
run.build_classes()
print("ok")
