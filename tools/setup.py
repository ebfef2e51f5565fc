"""Build the MIR dump driver once (the checks build it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
import dump
print(dump.driver()[0])
