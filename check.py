#!/usr/bin/env python3
"""Decides one property:  check.py <property> [quick|thorough]
                          check.py --replay <file>

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Anything else: no verdict.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
