import sys
from . import boot  # noqa
from . import engine
if __name__ == "__main__":
    if sys.argv[1] == "--selftest":
        from . import algos
        print("hypothesis", boot.hypothesis.__version__, "optimizers", len(algos.all_classes()))
        sys.exit(0)
    sys.exit(engine.main(sys.argv[1]))
