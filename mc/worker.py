import sys

from mc import engine

engine.worker(sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4])
