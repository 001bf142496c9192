"""One-off: harvest example field values from the repository's own field tests into pbt/corpus.json."""
import json, sys, importlib, pkgutil, inspect, os
sys.path.insert(0, "/repo")
from httplint.field.tests import FieldTest
import httplint.field.parsers as P
from httplint.field.finder import HttpFieldFinder
from httplint import HttpResponseLinter
out = {}
for _, name, _ in pkgutil.iter_modules(P.__path__):
    mod = importlib.import_module(f"httplint.field.parsers.{name}")
    h = getattr(mod, name, None)
    if h is None:
        print("no handler in", name); continue
    inst = h(name.replace("_","-"), HttpResponseLinter())
    ent = {"module": name, "canonical": inst.canonical_name, "req": inst.valid_in_requests, "resp": inst.valid_in_responses,
           "base": [c.__name__ for c in type(inst).__mro__[1:-3]], "inputs": [], "deprecated": inst.deprecated}
    for _, cls in inspect.getmembers(mod, inspect.isclass):
        if issubclass(cls, FieldTest) and cls is not FieldTest and cls.__module__ == mod.__name__:
            if cls.inputs:
                ent["inputs"].append([i.decode("latin-1") for i in cls.inputs])
    seen=[]; [seen.append(i) for i in ent["inputs"] if i not in seen]; ent["inputs"]=seen
    import ast, re
    words = []
    for node in ast.walk(ast.parse(inspect.getsource(mod))):
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and re.match(r"^[A-Za-z0-9*][\w*'/.+-]{0,28}\Z", node.value):
            if node.value not in words:
                words.append(node.value)
    ent["words"] = sorted(words)
    out[inst.canonical_name] = ent
dest = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "corpus.json")
json.dump(out, open(dest, "w"), indent=0, ensure_ascii=True)
print(len(out), sum(len(e["inputs"]) for e in out.values()))
