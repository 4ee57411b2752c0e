#!/usr/bin/env python3
"""Checks that the tools are there and warms the Go build cache with the harness."""
import subprocess, sys
import vlib
run = vlib.Run("setup")
try:
    run.build()
    subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
finally:
    run.cleanup()
