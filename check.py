#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
sys.dont_write_bytecode = True
import core
sys.exit(core.main(sys.argv[1]))
