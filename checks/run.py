import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
from cysym import runner
runner.main(sys.argv[1].lower())
