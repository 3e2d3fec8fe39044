#!/usr/bin/env python3
"""Builds the harness once; every check builds again (incrementally, or from scratch where this build is not kept)."""
import pathlib, sys
sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import vf
print(vf.build())
