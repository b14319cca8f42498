"""setup_cmd: build the flattening tool."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
print(core.tool())
