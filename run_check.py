#!/opt/venv/bin/python
"""Entry point: run_check.py C02 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.path.exists("/opt/venv/bin/python") and not sys.prefix.startswith("/opt/venv"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", *sys.argv])
from mgv.driver import main  # noqa: E402

sys.exit(main())
