"""Setup: the analyser and the sources of /repo can be read."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import registry

print('%d properties registered' % len(registry.SPECS))
