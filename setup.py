#!/usr/bin/env python3
"""Checks that the monitors build against /repo's working tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
sys.exit(subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(V, "harness"), env=e).returncode)
