#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: rebuilds what the property's check
needs from /repo's working tree, runs it, writes evidence/<property>.json."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import runner
sys.exit(runner.main(sys.argv[1:]))
