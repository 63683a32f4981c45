#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
prop = sys.argv[1]
mod = importlib.import_module("c" + prop[1:])
lib.main(prop, mod.run)
