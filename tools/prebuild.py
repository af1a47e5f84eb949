#!/usr/bin/env python3
"""Builds the harness once (default configuration), so that later builds find the dependencies compiled."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
c = check.Check("C06", "quick", 1)
c.need_schemas()
c.prepare()
c.build("dev")
for e in c.errors: print(e)
sys.exit(0 if "dev" in c.bins else 1)
