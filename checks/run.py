#!/usr/bin/env python3
"""checks/run.py <property> [--only <story>]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
if __name__ == '__main__':
    c = registry.make(sys.argv[1])
    sys.exit(c.main(sys.argv[2:]))
