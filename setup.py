#!/usr/bin/env python3
"""builds the IR dumper (the only compiled part of the framework)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import ir
print(ir.tool())
