#!/usr/bin/env python3
"""check.py <property id>: run the check of one property (see DESIGN.md)"""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import hx
mod = importlib.import_module(sys.argv[1].lower())
hx.main(mod.run)
