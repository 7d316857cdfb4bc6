#!/usr/bin/env python3
"""builds the engine and the instrumented dependency copies (every check does the same if they are missing)"""
import sys
sys.argv = ["run.py", "--setup"]
exec(open("run.py").read())
