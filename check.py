#!/opt/venv/bin/python
"""check.py <property id>            decide one property on /repo's current tree (tier and seed from the environment)
   check.py --replay <file>          run the recorded case of a violation again"""
import json, os, sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import driver
sys.exit(driver.main(sys.argv[1:]))
