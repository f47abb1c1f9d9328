"""The other process of P38: one pickled request per frame on stdin."""
import os
import pickle
import struct
import sys

import numpy as np     # noqa: F401

out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
source = sys.stdin.buffer


def reply(value):
    data = pickle.dumps(value)
    out.write(struct.pack("<Q", len(data)) + data)
    out.flush()


def main():
    import HamiltonianPy as HP
    from vlib.objects import Recipe
    from vlib.world import World, canon
    while True:
        head = source.read(8)
        if len(head) < 8:
            return
        data = source.read(struct.unpack("<Q", head)[0])
        try:
            request, args = pickle.loads(data)
            if request == "world":
                reply(("ok", [(name, canon(query())) for name, query in World(*args).queries]))
            elif request == "object":
                kind, seed, sent, container, mapping = args
                recipe = Recipe(kind, seed)
                mine = recipe.object
                res = {"answers": recipe.answers(sent), "own": recipe.answers(mine)}
                if container is not None:
                    res["equal"] = bool(sent == mine), bool(mine == sent), not (sent != mine)
                    res["hash"] = hash(sent) == hash(mine)
                    res["in set"] = mine in container, sent in container, mine in {sent}, sent in {mine}
                    res["in dict"] = mapping.get(mine), mapping.get(sent), {mine: 5}.get(sent)
                    res["size"] = len(container), len({mine, sent}), len(container | {mine})
                    try:
                        res["order"] = sent < mine, sent > mine
                    except TypeError:
                        res["order"] = None
                reply(("ok", (res, sent)))
            elif request == "greens":
                name, call, kwargs = args
                reply(("ok", canon(getattr(HP, name)(*call, **kwargs))))
            elif request == "table":
                table, keys = args
                reply(("ok", ([table(k) for k in keys()] if callable(keys) else [table(k) for k in keys], len(table))))
            else:
                reply(("error", "unknown request"))
        except BaseException as exc:     # noqa: B902
            reply(("error", "{0}: {1}".format(type(exc).__name__, exc)))


main()
