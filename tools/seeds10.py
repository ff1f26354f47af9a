from mkseed import make
W, C = "causy/workspaces/cli.py", "causy/cli.py"
DLG = '''
import os, tempfile, sys
os.chdir(tempfile.mkdtemp())
import causy.workspaces.cli as w, questionary, typer
from causy.workspaces.models import Workspace
answers = {"select": [], "text": [], "path": []}
class Q:
    def __init__(self, v): self.v = v
    def ask(self): return self.v
    unsafe_ask = ask
for k in answers:
    setattr(questionary, k, lambda *a, k=k, **kw: Q(answers[k].pop(0)))
def blank(): return Workspace(name="n", author="a", pipelines={}, dataloaders={}, experiments={})
def run(f, **kw):
    answers.update(kw)
    f()
    return w._current_workspace()
'''
make("c32-eject-resolved", "C32", [(W, "f.write(to_yaml_str(pipeline_reference()._original_algorithm))", "f.write(to_yaml_str(pipeline_reference().algorithm))")],
 "an ejected pipeline whose variable is changed in an experiment", "the references to variables are lost in the ejected file, so the variables of experiments have no effect",
DLG + '''
w.write_to_workspace(blank())
ws = run(w.create_pipeline, select=["EJECT", "PC"], text=["mine"])
from causy.serialization import load_algorithm_by_reference
from causy.graph_model import graph_model_factory
ref = ws.pipelines["mine"]
a = load_algorithm_by_reference(ref.type, ref.reference)
m = graph_model_factory(a, {"threshold": 0.2})()
ths = [s.threshold for s in m.algorithm.pipeline_steps if getattr(s, "threshold", None) is not None]
assert 0.2 in ths and 0.05 not in ths, ths
''')
make("c32-defaults", "C32", [(W, """    if len(pipeline.variables) > 0:
        variables = resolve_variables(pipeline.variables, {})
""", """    for existing in workspace.experiments.values():
        if existing.pipeline == experiment_pipeline and existing.variables:
            variables = existing.variables
            break
    else:
        variables = resolve_variables(pipeline.variables, {})
""")],
 "a second experiment with the same pipeline after a variable of the first one was changed", "the new experiment starts with the changed variables of another one",
DLG + '''
from causy.models import AlgorithmReference, AlgorithmReferenceType
from causy.data_loader import DataLoaderReference
ws = blank()
ws.pipelines["p"] = AlgorithmReference(reference="PC", type=AlgorithmReferenceType.NAME)
ws.dataloaders["d"] = DataLoaderReference(type="json", reference="d.json")
w.write_to_workspace(ws)
run(w.create_experiment, select=["p", "d"], text=["one"])
w.update_experiment_variable("one", "threshold", "0.5")
ws = run(w.create_experiment, select=["p", "d"], text=["two"])
assert ws.experiments["two"].variables == {"threshold": 0.05}, ws.experiments["two"]
assert ws.experiments["one"].variables == {"threshold": 0.5}
''')
make("c32-reference-slug", "C32", [(W, """            reference=f"{pipeline_slug}.PIPELINE",""", """            reference=f"{pipeline_name}.PIPELINE",""")],
 "a pipeline skeleton whose name is not its slug", "the pipeline refers to a module that was not written",
DLG + '''
w.write_to_workspace(blank())
ws = run(w.create_pipeline, select=["SKELETON"], text=["My Pipeline"])
(k, ref), = ws.pipelines.items()
assert os.path.exists(ref.reference.rsplit(".", 1)[0] + ".py"), (ref, os.listdir())
''')
make("c32-both-given", "C32", [(C, "            \"type\": AlgorithmReferenceType.FILE,\n            \"reference\": pipeline,", "            \"type\": AlgorithmReferenceType.FILE if not algorithm else AlgorithmReferenceType.NAME,\n            \"reference\": pipeline,")],
 "executing a pipeline file", "the result calls the pipeline file the name of an algorithm",
'''
import os, tempfile, json
os.chdir(tempfile.mkdtemp())
import causy.cli as c
c.eject("PC", "p.json")
json.dump([{"x": float(i % 7), "y": float(i % 5), "z": float(i % 3)} for i in range(60)], open("d.json", "w"))
c.execute("d.json", pipeline="p.json", algorithm=None, output_file="o.json", log_level="ERROR")
a = json.load(open("o.json"))["algorithm"]
assert a == {"type": "file", "reference": "p.json"}, a
''')
make("c32-init-loader-type", "C32", [(W, """            data_loader_slug = slugify(data_loader_name, "_")
            workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                **{
                    "type": data_loader_type,""", """            data_loader_slug = slugify(data_loader_name, "_")
            if data_loader_path.endswith(".json"):
                data_loader_type = "json"
            workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                **{
                    "type": data_loader_type,""")],
 "initialising a workspace with JSONL data in a file with the extension .json", "the data loader gets another type than the chosen one",
DLG + '''
conf = [False, True]
typer.confirm = lambda *a, **k: conf.pop(0)
typer.prompt = lambda *a, **k: "x"
ws = run(w.init, select=["jsonl"], path=["rows.json"], text=["My Data"])
d = ws.dataloaders["my_data"]
assert d.type.value == "jsonl" and d.reference == "rows.json", d
''')
