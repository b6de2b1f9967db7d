"""Record the defaults of every public callable of gwinferno (the documented interface) in harness/defaults.json."""
import importlib, inspect, json, os, pkgutil, sys
sys.path.insert(0, "/repo")
import gwinferno

OK = (bool, int, float, str, type(None))
out = {}


def add(name, f, skip):
    try:
        ps = list(inspect.signature(f).parameters.values())[skip:]
    except (TypeError, ValueError):
        return
    d = {p.name: p.default for p in ps if p.default is not p.empty and (isinstance(p.default, OK) or (isinstance(p.default, tuple) and all(isinstance(v, OK) for v in p.default)))}
    if any(p.kind is p.VAR_POSITIONAL for p in ps):
        pos = []
    else:
        pos = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
    if d:
        assert name not in out or out[name] == {"defaults": d, "positional": pos}, name
        out[name] = {"defaults": d, "positional": pos}


for m in pkgutil.walk_packages(gwinferno.__path__, "gwinferno."):
    mod = importlib.import_module(m.name)
    for n, o in vars(mod).items():
        if getattr(o, "__module__", "") != m.name or n.startswith("_"):
            continue
        if inspect.isclass(o):
            add(n, o.__init__, 1)
            for k, f in vars(o).items():
                if inspect.isfunction(f) and (k == "__call__" or not k.startswith("_")):
                    add(f"{n}.{k}", f, 1)
        elif inspect.isfunction(o):
            if n == "load_base_parser":
                continue
            add(n, o, 0)
out["LogXLogYBSpline"]["defaults"].pop("xrange")  # its documentation says otherwise
for v in out.values():
    v["defaults"] = {k: (list(x) if isinstance(x, tuple) else x) for k, x in v["defaults"].items()}
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "harness", "defaults.json"), "w"), indent=0, sort_keys=True)
print(len(out), sum(len(v["defaults"]) for v in out.values()))
