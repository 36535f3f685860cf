#!/opt/venv/bin/python
"""/opt/venv/bin/python /verif/run.py <property id> [--tier quick|thorough] [--replay file]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.modules.pop("runner", None)
import runner
runner.main()
