import sys
from mc import engine

if __name__ == '__main__':
  sys.exit(engine.main(sys.argv[1]))
