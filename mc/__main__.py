import sys
from mc import core

if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        sys.exit(core.replay_file(args[1]))
    tier = None
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    sys.exit(core.main(args[0], tier))
