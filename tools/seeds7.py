from mkseed import make
C = "causy/workspaces/cli.py"; S = "causy/serialization.py"; A = "causy/ui/server.py"; U = "causy/graph_utils.py"; D = "causy/data_loader.py"
WS = '''
import glob, io, json, os, sys, tempfile
work = tempfile.mkdtemp()
os.chdir(work)
import shutil, atexit
atexit.register(shutil.rmtree, work, True)
from causy.models import AlgorithmReference, AlgorithmReferenceType
from causy.data_loader import DataLoaderReference, DataLoaderType
from causy.workspaces.models import Workspace, Experiment
from causy.workspaces import cli
import random
random.seed(1)
def rows(n=30):
    out = []
    for _ in range(n):
        a = random.gauss(0, 1)
        out.append({"a": a, "b": a + random.gauss(0, 1), "c": random.gauss(0, 1)})
    return out
json.dump(rows(), open("d1.json", "w"))
json.dump(rows(), open("d2.json", "w"))
PC = lambda n="PC": AlgorithmReference(type=AlgorithmReferenceType.NAME, reference=n)
J = lambda n: DataLoaderReference(type=DataLoaderType.JSON, reference=n)
def workspace(**exps):
    w = Workspace(name="w", author="a", pipelines={"p1": PC(), "p2": PC("ParallelPC")}, dataloaders={"d1": J("d1.json"), "d2": J("d2.json")}, experiments=exps)
    cli.write_to_workspace(w)
    return w
'''
API = '''
from fastapi.testclient import TestClient
from causy.ui.server import _create_ui_app, _set_workspace, _set_model
client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
'''
make("c22-abspath", "C22", [(S, "absolute_path = os.path.realpath(algorithm)", "absolute_path = os.path.abspath(algorithm)")],
 "a symbolic link inside the working directory that leads out of it", "a file outside of the working directory is opened",
WS + '''
from causy.serialization import load_algorithm_by_reference
from causy.causal_discovery import AVAILABLE_ALGORITHMS
out = tempfile.mkdtemp()
atexit.register(shutil.rmtree, out, True)
with open(out + "/a.json", "w") as f:
    f.write(AVAILABLE_ALGORITHMS["PC"]()._original_algorithm.model_dump_json())
os.symlink(out + "/a.json", "a.json")
try:
    load_algorithm_by_reference("file", "a.json")
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
make("c22-shallow", "C22", [(S, "return copy.deepcopy(AVAILABLE_ALGORITHMS[algorithm]()._original_algorithm)", "return copy.copy(AVAILABLE_ALGORITHMS[algorithm]()._original_algorithm)")],
 "changing the steps of an algorithm that was loaded by name", "the registered algorithm changes",
WS + '''
from causy.serialization import load_algorithm_by_reference
a = load_algorithm_by_reference("name", "PC")
n = len(a.pipeline_steps)
a.pipeline_steps.pop()
a.variables[0].value = 0.5
b = load_algorithm_by_reference("name", "PC")
assert len(b.pipeline_steps) == n and b.variables[0].value == 0.05
''')
make("c23-version-prefix", "C23", [(C, '''    with open(f"{experiment_name}_{version_number}.json", "r") as f:''', '''    file_name = next(
        file
        for file in sorted(os.listdir())
        if file.startswith(f"{experiment_name}_{version_number}")
    )
    with open(file_name, "r") as f:''')],
 "two versions where the digits of one start with the digits of the other, or a copy of a result", "another file than the requested version is read",
WS + API + '''
w = workspace(exp=Experiment(pipeline="p1", dataloader="d1", variables={}))
doc = lambda h: {"algorithm": {"type": "name", "reference": "PC"}, "nodes": {}, "edges": [], "action_history": [], "algorithm_hash": h}
json.dump(doc("right"), open("exp_170000.json", "w"))
json.dump(doc("wrong"), open("exp_170000.bak", "w"))
_set_workspace(w)
r = client.get("/api/v1/experiments/exp/170000")
assert r.status_code == 200 and r.json()["algorithm_hash"] == "right", r.text
''')
make("c23-clear-prefix", "C23", [(C, '''    for version in versions:
        try:
            os.remove(f"{experiment_name}_{version}.json")
            versions_removed += 1
        except FileNotFoundError:
            pass
''', '''    for file in os.listdir():
        if not versions or not file.startswith(f"{experiment_name}_"):
            continue
        if file.endswith(".json"):
            os.remove(file)
            versions_removed += 1
''')], "two experiments, the name of one continues the other's", "clearing an experiment deletes the results of another one",
WS + '''
workspace(exp=Experiment(pipeline="p1", dataloader="d1", variables={}), exp_b=Experiment(pipeline="p1", dataloader="d2", variables={}))
for f in ("exp_100.json", "exp_b_100.json"):
    open(f, "w").write("{}")
cli.clear_experiment("exp")
assert os.path.exists("exp_b_100.json") and not os.path.exists("exp_100.json")
''')
make("c24-loader-in-use", "C24", [(C, '''        if experiment.dataloader == data_loader_name:
            show_error(
                f"Data loader {data_loader_name} is still in use by experiment {experiment_name}. Cannot remove."
            )
            return
''', '''        if experiment.dataloader != data_loader_name:
            break
        show_error(
            f"Data loader {data_loader_name} is still in use by experiment {experiment_name}. Cannot remove."
        )
        return
''')], "a data loader that is used by an experiment other than the first one", "a data loader that is in use is removed",
WS + '''
workspace(one=Experiment(pipeline="p1", dataloader="d1", variables={}), two=Experiment(pipeline="p1", dataloader="d2", variables={}))
cli.remove_data_loader("d2")
assert "d2" in cli._current_workspace().dataloaders
''')
make("c24-remove-before-check", "C24", [(C, '''    # check if the pipeline is still in use
    for experiment_name, experiment in workspace.experiments.items():
        if experiment.pipeline == pipeline_name:
''', '''    # check if the pipeline is still in use
    reference = workspace.pipelines[pipeline_name].reference
    for experiment_name, experiment in workspace.experiments.items():
        if experiment.pipeline == reference:
''')], "a pipeline whose name is not the name of its algorithm", "a pipeline that is in use is removed",
WS + '''
workspace(one=Experiment(pipeline="p1", dataloader="d1", variables={}))
cli.remove_pipeline("p1")
assert "p1" in cli._current_workspace().pipelines
cli.remove_pipeline("p2")
assert "p2" not in cli._current_workspace().pipelines
''')
make("c25-hash-order", "C25", [(U, "            sort_keys=True,\n", "")], "variables given in another order", "an unchanged experiment is executed again",
'''
from causy.graph_utils import hash_dictionary
assert hash_dictionary({"a": 1, "b": {"x": 1, "y": 2}}) == hash_dictionary({"b": {"y": 2, "x": 1}, "a": 1})
''')
make("c25-file-head", "C25", [(D, '''            return (
                f'{hashlib.file_digest(f, "sha256").hexdigest()}_{self._hash_options()}'
            )
''', '''            digest = hashlib.sha256(f.read(65536))
            return f"{digest.hexdigest()}_{self._hash_options()}"
''')], "data files larger than 64 KiB that differ behind that", "changed data goes unnoticed",
WS + '''
from causy.data_loader import load_data_loader
open("d1.json", "w").write(json.dumps([{"a": 1.0}] * 10000))
h = load_data_loader(J("d1.json")).hash()
open("d1.json", "w").write(json.dumps([{"a": 1.0}] * 9999 + [{"a": 2.0}]))
assert load_data_loader(J("d1.json")).hash() != h
''')
make("c25-skip-rest", "C25", [(C, '''    if latest_experiment.variables_hash != hash_dictionary(variables):
''', '''    if latest_experiment.variables_hash not in (None, hash_dictionary(variables)):
''')], "a stored result without the fingerprint of its variables", "an experiment whose variables are not known to be the same is skipped",
WS + '''
workspace(one=Experiment(pipeline="p1", dataloader="d1", variables={"threshold": 0.01}))
cli.execute("one")
f = glob.glob("one_*.json")[0]
doc = json.load(open(f)); doc["variables_hash"] = None
os.remove(f); json.dump(doc, open("one_100.json", "w"))
cli.execute(None)
assert len(glob.glob("one_*.json")) == 2, glob.glob("one_*.json")
''')
make("c26-prefix-only", "C26", [(A, '''    if reference.startswith("/") or ".." in reference:''', '''    if reference.startswith(("/", "..")):''')], "a reference with .. behind its first component", "a reference that leaves the directory is loaded",
WS + API + '''
import causy.ui.server as server
seen = []
real = server.load_algorithm_by_reference
server.load_algorithm_by_reference = lambda t, r: seen.append(r) or real("name", "PC")
r = client.get("/api/v1/algorithm/python_module/os..path")
assert r.status_code == 400 and not seen, (r.status_code, seen)
''')
make("c26-value-errors", "C26", [(A, '''        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
    except Exception as e:''', '''        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
    except ValueError as e:''')], "a newest result that cannot be opened", "status 500 instead of 400",
WS + API + '''
w = workspace(exp=Experiment(pipeline="p1", dataloader="d1", variables={}))
_set_workspace(w)
assert client.get("/api/v1/experiments/exp/latest").status_code == 400
os.mkdir("exp_100.json")
assert client.get("/api/v1/experiments/exp/latest").status_code == 400
''')
