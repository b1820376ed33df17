"""Setup: confirms that the interpreter, torch and the package under /repo can be loaded and monitored."""
from . import checks, monitor


def main():
    nnj = monitor.import_nnj()
    m = monitor.Monitor(nnj).install()
    print(f"nnj from {nnj.__file__}: {len(m.wrapped)} methods monitored, {len(checks.CHECKS)} checks")


if __name__ == "__main__":
    main()
