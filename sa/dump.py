"""developer aid: python3 -m sa.dump physarray.PhysArray.__add__"""
import sys
from .engine import Engine
from .loader import Project
from .terms import show

if __name__ == "__main__":
    p = Project()
    for q in sys.argv[1:]:
        f = p.func(q)
        an = Engine(p)
        r = an.run(f)
        print("==", f.qual)
        for e in r.events:
            if e.kind in ("enter", "getitem"):
                continue
            print("  ", e)
        print("  VALUE", show(an.norm(r.value), 9))
