"""Case server: reads case indices on stdin, writes one JSON result per line."""

from __future__ import annotations

import gc
import importlib
import json
import logging
import os
import sys


def plan(mod, index: int):
    """index -> (variant name, function): directed cases first, then a weighted
    round-robin over the generators."""
    directed = getattr(mod, "DIRECTED", [])
    if index < len(directed):
        fn = directed[index]
        return fn.__name__, fn
    wheel = []
    for fn, w in mod.GENERATORS:
        wheel += [fn] * w
    fn = wheel[(index - len(directed)) % len(wheel)]
    return fn.__name__, fn


def main() -> None:
    prop, tier, seed = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # anything the code under test prints goes to stderr
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    logging.basicConfig(level=logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"rv.props.{prop.lower()}")
    from rv import case, sim

    if getattr(mod, "NEEDS_VCLOCK", True) and not sim.HAVE_VCLOCK:
        print("virtual clock shim is not loaded", file=sys.stderr)
        sys.exit(3)
    for line in sys.stdin:
        index = int(line)
        variant, fn = plan(mod, index)
        c = case.execute(prop, fn, variant, f"{seed}:{prop}:{index}", tier, index)
        out.write(json.dumps(c.as_dict(), default=str) + "\n")
        out.flush()
        for name in ("_signature_cache", "_parameter_cache", "_annotation_dependency_cache"):
            try:
                import uncalled_for.introspection as ui

                getattr(ui, name, {}).clear()
            except Exception:
                pass
        gc.collect()


if __name__ == "__main__":
    main()
