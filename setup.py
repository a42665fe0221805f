#!/usr/bin/env python3
"""build the extractor and the harness into .build (checks do it again, incrementally)"""
import subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, "check.py"), "--build"]))
