"""Runs a program of the repository as its user would (python guest.py ARGS...), with the stand-ins this sandbox needs."""
import sys, os, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import realcode
realcode.compat()
sys.argv = sys.argv[1:]
runpy.run_path(os.path.join(realcode.REPO, sys.argv[0]), run_name="__main__")
