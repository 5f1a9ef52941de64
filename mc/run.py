"""Entry point: python -m mc.run C01 [--tier quick|thorough] [--replay file]."""
import ast
import importlib
import os
import sys

from mc import env


def static_flag(path, name, default):
    """Read a constant of the check module without importing it."""
    with open(path) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
                return ast.literal_eval(node.value)
    return default


def main():
    prop = sys.argv[1].upper()
    path = os.path.join(env.VERIF, "mc", "checks", prop.lower() + ".py")
    parent = os.getpid()
    scratch = env.setup(static_flag(path, "JIT", False))
    try:
        mod = importlib.import_module("mc.checks." + prop.lower())
        from mc import core

        code = core.main(mod, sys.argv[2:])
    finally:
        if os.getpid() == parent:
            env.cleanup(scratch)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
