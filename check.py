#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--tier quick|thorough] [--seed N]

Builds the monitoring harness against /repo's working tree in every
configuration the property needs, runs the engines, and turns what the
monitors observed into a verdict.

exit 0: held on everything observed     exit 1: VIOLATION line printed
exit 2: no verdict (build or harness problem, time out)
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from driver import main
sys.exit(main(sys.argv[1:]))
