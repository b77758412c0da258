#!/usr/bin/env python3
"""builds the MIR dumper and the first dump"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import engine
engine.ensure_driver()
print(engine.ensure_dump())
