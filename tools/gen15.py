#!/usr/bin/env python3
"""Writes harness/src/c15_models.rs: models with random tables and reference trees."""
import random
r = random.Random(15)
NAMES = ["id", "name", "a", "b", "map", "x_1", "Größe", "with space", "q?", "dot.ted", "select", "`"[:0] + "ünï", "verylong" * 9, "0", "_"]
def name(): return r.choice(NAMES) + (str(r.randrange(30)) if r.random() < .6 else "")
def col(depth):
    if depth > 0 and r.random() < .4:
        n = r.choice([1, 1, 2, 3, 4])
        return 'QueryColumn::Reference(QueryColumnReference { column: "%s", table: "%s", key: "%s", columns: &[%s] })' % (name(), name(), name(), ", ".join(col(depth - 1) for _ in range(n)))
    return 'QueryColumn::Column("%s")' % name()
models = []
for i in range(60):
    n = [1, 2, 3, 0][i] if i < 4 else r.choice([1, 2, 3, 5, 8, 30])
    d = 0 if i < 6 else r.choice([0, 1, 2, 4, 7])
    table = name()
    models.append('    M%d, "%s", "%s", [%s];' % (i, table, name(), ", ".join(col(d) for _ in range(n))))
open("/verif/harness/src/c15_models.rs", "w").write("// Written by tools/gen15.py.\nmodels! {\n" + "\n".join(models) + "\n}\n")
