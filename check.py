#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree by static analysis"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from zsa import driver
sys.exit(driver.main(sys.argv[1]))
