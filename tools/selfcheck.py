"""setup_cmd: nothing to build; checks that what the machinery needs is there."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pysym import loader, model, explorer
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
assert os.path.isdir(loader.SRC), loader.SRC
print("z3", z3.get_version_string(), "code", loader.SRC)
