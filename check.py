import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
