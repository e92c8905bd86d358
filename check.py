#!/usr/bin/env python3
"""Runs the static checks: check.py [--thorough] <property id>... | all"""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "engine"))

import ctx  # noqa: E402


class Mods(dict):
    """Property id -> check function, loaded on demand from checks/<id>.py."""

    def __init__(self):
        for f in os.listdir(os.path.join(HERE, "checks")):
            m = re.fullmatch(r"(c\d\d)\.py", f)
            if m:
                self[m.group(1).upper()] = None

    def __getitem__(self, k):
        return importlib.import_module("checks." + k.lower()).run


if __name__ == "__main__":
    sys.exit(ctx.main(Mods()))
