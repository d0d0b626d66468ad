#!/usr/bin/env python3
"""development: compile a contract file for the verifier without repairing it, to see the errors"""
import sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/engine")
import build
with tempfile.TemporaryDirectory() as d:
    try: build.to_ir_(os.path.abspath(sys.argv[1]), d)
    except build.BuildError as e: print(str(e)[:3000])
