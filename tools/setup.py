#!/usr/bin/env python3
"""setup_cmd: nothing is built; the tools the checks need are looked up and the analysis is tested on small programs."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.selftest import main
sys.exit(main())
