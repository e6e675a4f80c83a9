""" python -m mc.replay FILE: runs a recorded violation again. """
import sys
from mc import engine

if __name__ == '__main__':
  sys.exit(engine.replay(sys.argv[1]))
