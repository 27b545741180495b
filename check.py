import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import engine  # noqa: E402

if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(engine.replay(a[1]) if a[0] == "replay" else engine.main(a))
