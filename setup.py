#!/usr/bin/env python3
"""builds the compiler driver"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wit'))
import lib      # noqa: E402
lib.build_driver()
print('driver built')
