"""check.py <property id>: decides one property; exit 0 held, 1 violated."""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    import core, checks
    c = core.Check(prop)
    getattr(checks, prop)(c)
    return c.finish(level=checks.LEVEL.get(prop, 'model_checking'))


if __name__ == '__main__':
    sys.exit(main())
