"""Freeze what the modules of the reference tree import and the values of their constants: references
mean these, whatever the modules of the analysed tree have come to import or define instead."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.repo import Repo
r = Repo()
env = {}
for m in r.modules.values():
    c = {k: ast.unparse(v) for k, v in m.consts.items() if len(ast.unparse(v)) < 200}
    ks = {}
    for k in m.classes.values():
        i = r.find_method(k, "__init__")
        if i is not None or k.dataclass:
            ks[k.qual] = {"init": i is not None, "args": [x.arg for x in i.node.args.posonlyargs + i.node.args.args][1:] if i is not None else k.fields}
    if c or m.imports or ks:
        env[m.name] = {"imports": dict(sorted(m.imports.items())), "consts": dict(sorted(c.items())), "classes": ks}
with open(os.path.join(HERE, "vf", "env.json"), "w") as f:
    json.dump(env, f, indent=0, sort_keys=True)
    f.write("\n")
print(len(env))
