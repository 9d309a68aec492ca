"""Builds what every check needs: the Rust half of /repo and the reference."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bridge
import ref

bridge.build_rust()
ref.lib()
print('ready')
