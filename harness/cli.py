"""Runs one of the repository's command-line tools:  cli.py SCRIPT ARGS...
(the interpreter finds the repository's packages and the bridged Rust module)"""
import runpy
import sys

sys.dont_write_bytecode = True

import bridge

bridge.use_repo()
bridge.load_rust()
sys.argv = sys.argv[1:]
name = sys.argv[0]
sys.path.insert(0, bridge.REPO)
runpy.run_path(f'{bridge.REPO}/{name}', run_name='__main__')
