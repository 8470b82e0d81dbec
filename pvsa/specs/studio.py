"""What studio requests change."""
import io
import copy
import asyncio
import time
import os
import tempfile
import yaml
import numpy as np
from pathlib import Path
import pvtrace.engine as engine
from pvtrace.cli.parse import parse as parse_scene_file
from pvtrace.engine.recorder import Heatmap
from fastapi import FastAPI, WebSocketDisconnect
from pvtrace.cli.parse import auto_recorders
from pvtrace.studio.server import GEOM_NAMES, Studio
from fastapi.responses import JSONResponse
from anytree import PreOrderIter
from ruamel.yaml.comments import CommentedSeq
from pvtrace.studio.server import _patch, _flow, _unique_name, _round_trip_yaml, _recorder_to_spec, _recorder_payload, _histogram_meta, _extract_paths, SNIPPETS


@spec("pvtrace/studio/server.py:Studio.__init__", props="P32")
def init(self, document="", directory=None):
    self.document = document
    self.directory = directory
    self.scene = None
    self.spec = None


@spec("pvtrace/studio/server.py:create_app.put_document", props="P32", params={"studio": "obj:Studio"}, abstract={"apply": "effect!"}, domain={"payload": {"text?": "$opq"}})
def put_document(payload, studio):
    try:
        scene = studio.apply(payload["text"])
    except Exception as error:
        return JSONResponse({"error": str(error)}, status_code=422)
    return {"scene": scene}


@spec("pvtrace/studio/server.py:create_app.get_document", props="P32", params={"studio": "obj:Studio"})
def get_document(studio):
    return {"text": studio.document}


@spec("pvtrace/studio/server.py:create_app.patch_document", props="P32", params={"studio": "obj:Studio"}, abstract={"apply": "effect!", "_patch": "effect!"})
def patch_document(payload, studio):
    try:
        text = _patch(studio, payload)
        scene = studio.apply(text)
    except Exception as error:
        return JSONResponse({"error": str(error)}, status_code=422)
    return {"scene": scene, "text": text}


@spec("pvtrace/studio/server.py:create_app.upload_file", trials=300, props="P33", domain={"document_path": [None, "/d/scene.yml"], "payload": {"name": ["a.csv", "b.TXT", "../../x.csv", "/etc/passwd", "/etc/q.csv", "sub/d.txt", "e/../f.csv", "c.yml", "", "dir/", "x.csv.exe", "csv", "a.csv~", "b.txt.bak", " c.csv ", "d.csv.", "..\\e.csv", "f.csv\x00", ".csv", "g.CSV", "/h.txt", "i.tsv", "j.py"], "content": ["1,2\n", "  3, 4 \r\n\n", ""]}})
def upload_file(payload, document_path):
    if document_path:
        name = os.path.basename(payload["name"])
        if name and name.lower().endswith((".csv", ".txt")):
            (Path(document_path).parent / name).write_text(payload["content"])
            return {"saved": name}
        return JSONResponse({"error": "Only .csv or .txt files."}, status_code=422)
    return JSONResponse({"error": "No file was opened."}, status_code=422)


@spec("pvtrace/studio/server.py:create_app.save_document", props="P33 P32", params={"studio": "obj:Studio"}, domain={"document_path": [None, "/d/scene.yml"], "attr:document": ["alpha: 1\n", "  beta: gamma\n\n", ""]})
def save_document(document_path, studio):
    if document_path:
        Path(document_path).write_text(studio.document)
        return {"saved": str(document_path)}
    return JSONResponse({"error": "No file was opened."}, status_code=422)


@spec("pvtrace/studio/server.py:Studio.apply", props="P32 P33 P30", heap_on_raise=True, trials=200, abstract={"scene_payload": "effect", "parse": "effect!", "compile_scene": "effect!"}, domain={"call:yaml.safe_load": [None, ("seq", "$num"), {"nodes?": "$opq"}, {"nodes?": "$opq"}, {"nodes?": "$opq"}], "call:os.getcwd": ["/cwd"], "attr:directory": [None, "/d"]})
def apply(self, text):
    spec = yaml.safe_load(io.StringIO(text))
    if not isinstance(spec, dict):
        raise ValueError
    fd, path = tempfile.mkstemp(suffix=".yml", dir=self.directory or os.getcwd(), text=True)
    try:
        with open(fd, "w") as fp:
            fp.write(text)
        scene = parse_scene_file(path)
    finally:
        os.unlink(path)
    compiled = engine.compile_scene(scene)
    self.document = text
    self.scene = scene
    self.spec = spec
    return self.scene_payload(compiled)


@spec("pvtrace/studio/server.py:Studio.apply", props="P32", trials=150, abstract={"parse": "effect!", "compile_scene": "effect!"}, domain={"call:yaml.safe_load": {"nodes?": {"a?": "$opq"}}, "call:os.getcwd": ["/cwd"], "attr:directory": [None, "/d"]})
def apply_payload(self, text):
    spec = yaml.safe_load(io.StringIO(text))
    if not isinstance(spec, dict):
        raise ValueError
    fd, path = tempfile.mkstemp(suffix=".yml", dir=self.directory or os.getcwd(), text=True)
    try:
        with open(fd, "w") as fp:
            fp.write(text)
        scene = parse_scene_file(path)
    finally:
        os.unlink(path)
    compiled = engine.compile_scene(scene)
    self.document = text
    self.scene = scene
    self.spec = spec
    return self.scene_payload(compiled)


@spec("pvtrace/studio/server.py:_unique_name", props="P32", domain={"existing": {"a-1?": "$num", "a-2?": "$num", "a-3?": "$num", "b-1?": "$num"}, "stem": ["a", "b"]})
def unique_name(existing, stem):
    i = 1
    while stem + "-" + str(i) in existing:
        i = i + 1
    return stem + "-" + str(i)


@spec("pvtrace/studio/server.py:_histogram_meta", props="P34", trials=200, params={"compiled": "obj:CompiledScene"}, domain={"attr:recorder_specs": ("seq", "$obj"), "attr:histograms": ("seq", ("is", "Heatmap", "Histogram")), "attr:bins": [2, 3, 4], "attr:rec_hist_start": ("tuple", [0], [1, 2], [2, 3, 4]), "attr:hist_offset": ("tuple", [0], [4, 5], [8, 9], [12], [17], [20], [26]), "attr:node_names": ("tuple", ["n0"], ["n1"], ["n2"]), "attr:rec_node": ("tuple", [0, 1, 2], [0, 1, 2], [0, 1, 2])})
def histogram_meta(compiled):
    out = {}
    for r in range(len(compiled.recorder_specs)):
        recorder = compiled.recorder_specs[r]
        entries = []
        for h in range(len(recorder.histograms)):
            hist = recorder.histograms[h]
            offset = int(compiled.hist_offset[compiled.rec_hist_start[r] + h])
            if isinstance(hist, Heatmap):
                entries.append({"kind": "heatmap", "offset": offset, "prop_a": hist.a.prop, "prop_b": hist.b.prop,
                                "edges_a": np.linspace(hist.a.start, hist.a.stop, hist.a.bins + 1).tolist(),
                                "edges_b": np.linspace(hist.b.start, hist.b.stop, hist.b.bins + 1).tolist()})
            else:
                entries.append({"kind": "hist", "offset": offset, "prop": hist.prop,
                                "edges": np.linspace(hist.start, hist.stop, hist.bins + 1).tolist()})
        out[recorder.name] = {"event": recorder.event, "node": compiled.node_names[int(compiled.rec_node[r])], "histograms": entries}
    return out


@spec("pvtrace/studio/server.py:_recorder_payload", props="P34", trials=200, params={"compiled": "obj:CompiledScene"}, domain={"attr:recorder_specs": ("seq", "$obj"), "attr:histograms": ("seq", ("is", "Heatmap", "Histogram")), "attr:bins": [1, 2], "attr:rec_hist_start": ("tuple", [0], [1, 2], [2, 3, 4]), "attr:hist_offset": ("tuple", [0], [4, 5], [8, 9], [12], [17], [20], [26]),
    "distinct": ("tuple", [0, 1, 5], [0, 2, 7], [0, 3]), "crossings": ("tuple", [0, 1, 5], [0, 2, 7], [0, 3]), "sums": ("tuple", ("tuple", "$pair", "$pair", "$pair", "$pair"), ("tuple", "$pair", "$pair", "$pair", "$pair"), ("tuple", "$pair", "$pair", "$pair", "$pair")),
    "bins": ("tuple", [3], [1], [4], [1], [5], [9], [2], [6], [5], [3], [5], [8], [9], [7], [9], [3], [2], [3], [8], [4], [6], [2], [6], [4], [3], [3], [8], [3], [27], [9], [5])})
def recorder_payload(compiled, distinct, crossings, sums, bins):
    out = {}
    for r in range(len(compiled.recorder_specs)):
        recorder = compiled.recorder_specs[r]
        entries = []
        for h in range(len(recorder.histograms)):
            hist = recorder.histograms[h]
            first = int(compiled.hist_offset[compiled.rec_hist_start[r] + h])
            if isinstance(hist, Heatmap):
                entries.append({"values": bins[first:first + hist.a.bins * hist.b.bins].tolist(), "shape": [hist.a.bins, hist.b.bins]})
            else:
                entries.append({"values": bins[first:first + hist.bins].tolist()})
        n = int(distinct[r])
        if n < 1:
            n = 1
        out[recorder.name] = {"rays": int(distinct[r]), "crossings": int(crossings[r]), "mean_wavelength": float(sums[r, 0, 0] / n), "mean_angle": float(sums[r, 1, 0] / n), "histograms": entries}
    return out


@spec("pvtrace/studio/server.py:_extract_paths", props="P34", trials=200, params={"result": "obj:EngineResult"}, domain={"attr:num_recorded": [0, 1, 2, 3], "attr:max_events": [3, 4], "limit": [0, 1, 2, 5], "attr:data": {"counts": ("tuple", [0, 1, 2, 3], [1, 2, 3], [1, 2, 3]), "position": ("tuple", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec", "$vec"), "wavelength": ("tuple", "$num", "$num", "$num", "$num", "$num", "$num", "$num", "$num", "$num", "$num", "$num", "$num")}})
def extract_paths(result, limit):
    data = result.data
    paths = []
    for j in range(min(result.num_recorded, limit)):
        n = int(data["counts"][j])
        if n >= 2:
            first = j * result.max_events
            paths.append({"points": np.round(data["position"][first:first + n], 6).tolist(), "wavelengths": np.round(data["wavelength"][first:first + n], 2).tolist()})
    return paths


@spec("pvtrace/studio/server.py:_recorder_to_spec", props="P32", trials=200, params={"studio": "obj:Studio"}, abstract={"_flow": "fn:flow"}, domain={"call:anytree.PreOrderIter": ("seq", "$obj"), "attr:recorders": ("seq", "$obj"), "attr:name": ["a", "b"], "name": ["a", "b", "c"], "attr:histograms": ("seq", ("is", "Heatmap", "Histogram")), "attr:facet": [None, "$axis"], "attr:prop": ["wavelength", "angle"]})
def recorder_to_spec(studio, name):
    for node in PreOrderIter(studio.scene.root):
        for recorder in getattr(node, "recorders", []):
            if recorder.name == name:
                histograms = {}
                for h in recorder.histograms:
                    if isinstance(h, Heatmap):
                        histograms["position"] = _flow([h.a.prop, h.b.prop, _flow([h.a.start, h.a.stop, h.a.bins]), _flow([h.b.start, h.b.stop, h.b.bins])])
                    else:
                        histograms[h.prop] = _flow([h.start, h.stop, h.bins])
                out = {"node": node.name, "event": recorder.event, "histograms": histograms}
                if recorder.facet is not None:
                    out["facet"] = _flow(list(recorder.facet))
                return out
    raise ValueError


@spec("pvtrace/studio/server.py:create_app.websocket.run", props="P34", trials=150, shared=("studio",), params={"studio": "obj:Studio"}, abstract={"compile_scene": "pure", "_histogram_meta": "pure", "simulate_stream": "pure", "_recorder_payload": "pure", "_extract_paths": "pure"},
      domain={"params": {"rays?": [1, 2, 3, 10, "3", "100"], "bundle?": [5, "7"], "seed?": [None, 0, 3], "record_every?": [0, 4], "max_paths?": [1, 2, 5]}, "pcall:_extract_paths": ("seq", "$obj"), "eff:.run_in_executor": [None, ("tuple", "$obj", "$int"), ("tuple", "$obj", "$int"), ("tuple", "$obj", "$int")], "stop": {"flag": [False, False, False, True]},
              "attr:recorder_names": ("tuple", "$obj", "$obj"), "attr:total_bins": [3], "eff:time.perf_counter": ["$num", "$num"], "attr:data": {"rec_distinct": ("tuple", "$int", "$int"), "rec_crossings": ("tuple", "$int", "$int"), "rec_bins": ("tuple", "$int", "$int", "$int"),
              "rec_sums": ("tuple", ("tuple", "$pair", "$pair", "$pair", "$pair"), ("tuple", "$pair", "$pair", "$pair", "$pair"))}})
def run(params, studio, ws, stop):
    loop = asyncio.get_running_loop()
    rays = int(params.get("rays", 100000))
    bundle = int(params.get("bundle", 25000))
    seed = params.get("seed")
    record_every = int(params.get("record_every", 1000))
    max_paths = int(params.get("max_paths", 200))
    scene = studio.scene
    compiled = engine.compile_scene(scene)
    ws.send_json({"type": "started", "total": rays, "histograms": _histogram_meta(compiled)})
    n = len(compiled.recorder_names)
    distinct = np.zeros(n)
    crossings = np.zeros(n)
    sums = np.zeros((n, 4, 2))
    bins = np.zeros(int(compiled.total_bins))
    sent = 0
    start = time.perf_counter()
    stream = engine.simulate_stream(scene, rays, bundle=bundle, seed=seed, record_every=record_every)
    while True:
        item = loop.run_in_executor(None, next, stream, None)
        if item is None or stop["flag"]:
            break
        result, traced = item
        distinct += result.data["rec_distinct"]
        crossings += result.data["rec_crossings"]
        sums += result.data["rec_sums"]
        bins += result.data["rec_bins"]
        paths = []
        if sent < max_paths:
            paths = _extract_paths(result, max_paths - sent)
            sent = sent + len(paths)
        elapsed = time.perf_counter() - start
        ws.send_json({"type": "bundle", "traced": traced, "total": rays, "rays_per_second": traced / elapsed if elapsed > 0 else 0,
                      "recorders": _recorder_payload(compiled, distinct, crossings, sums, bins), "paths": paths})
    ws.send_json({"type": "done", "elapsed": time.perf_counter() - start})


@spec("pvtrace/studio/server.py:create_app.websocket", props="P34", trials=1200, params={"studio": "obj:Studio"}, abstract={"run": "pure"}, domain={"eff:.receive_json": {"cmd?": ["run", "stop", "other"]}, "attr:scene": [None, "$obj"]})
def websocket(ws, studio):
    ws.accept()
    stop = {"flag": False}
    task = None

    def run(params):
        return stop["flag"]

    try:
        while True:
            message = ws.receive_json()
            if message.get("cmd") == "run":
                if studio.scene is None:
                    ws.send_json({"type": "error", "message": "Apply a scene first."})
                    continue
                if task:
                    stop["flag"] = True
                    asyncio.wait([task])
                stop["flag"] = False
                task = asyncio.create_task(run(message))
            elif message.get("cmd") == "stop":
                stop["flag"] = True
    except WebSocketDisconnect:
        stop["flag"] = True
        if task:
            task.cancel()


@spec("pvtrace/studio/server.py:create_app", props="P32 P33", unordered=True, ignore=("decorate", ".mount", ".put", ".get", ".post", ".websocket"), trials=100, abstract={"Studio": "pure", "apply": "effect!"}, domain={"document_path": [None, "", "/d/scene.yml"], "eff:.read_text": ["", "text"]})
def create_app(document_path=None):
    app = FastAPI(title="pvtrace studio")
    text = ""
    directory = None
    if document_path:
        text = Path(document_path).read_text()
        directory = Path(document_path).resolve().parent
    studio = Studio(text, directory=directory)
    if text:
        try:
            studio.apply(text)
        except Exception:
            pass
    return app


@spec("pvtrace/studio/server.py:Studio.scene_payload", props="P32 P34", trials=200, params={"compiled": "obj:CompiledScene"}, abstract={"auto_recorders": "pure", "transformation_to": "pure"}, domain={
    "attr:spec": [None, {"nodes?": {"a?": {"k": "$num", "record?": "$bool"}, "b?": {"k": "$num"}}, "recorders?": [None, {"r1?": "$num", "r2?": "$num"}]}, {"nodes?": {"a?": {"k": "$num", "record?": "$bool"}, "b": {"k": "$num", "record": "$bool"}}, "recorders?": {"r1?": "$num", "r2?": "$num"}}],
    "attr:node_names": ("tuple", ["a"], ["b"]), "attr:geom_type": ("tuple", [0, 1, 2], [0, 1, 2]), "attr:geom_params": ("tuple", "$vec", "$vec"), "attr:local_to_world": ("tuple", "$rigid", "$rigid"), "attr:root_id": [0, 1],
    "attr:refractive_index": ("tuple", "$num", "$num"), "call:anytree.PreOrderIter": ("tuple", "$obj", "$obj"), "attr:light": [None, "$obj"], "attr:name": ["a", "b", "r1", "r2"], "pcall:transformation_to": "$rigid", "pcall:auto_recorders": {"r1?": "$num", "r2?": "$num"},
    "attr:recorders": ("seq", "$obj"), "attr:histograms": ("seq", ("is", "Heatmap", "Histogram")), "attr:facet": [None, "$axis"]})
def scene_payload(self, compiled):
    specs = {}
    if self.spec:
        specs = self.spec.get("nodes", {})
    nodes = []
    for i in range(len(compiled.node_names)):
        name = compiled.node_names[i]
        nodes.append({"name": name, "type": GEOM_NAMES[int(compiled.geom_type[i])], "params": compiled.geom_params[i].tolist(), "matrix": compiled.local_to_world[i].T.ravel().tolist(),
                      "root": i == compiled.root_id, "refractive_index": float(compiled.refractive_index[i]), "spec": specs.get(name, {})})
    lights = []
    for node in PreOrderIter(self.scene.root):
        if node.light is not None:
            lights.append({"name": node.name, "matrix": np.asarray(node.transformation_to(self.scene.root)).T.ravel().tolist(), "spec": specs.get(node.name, {})})
    recorders = []
    for node in PreOrderIter(self.scene.root):
        auto = {}
        if specs.get(node.name, {}).get("record"):
            auto = auto_recorders(node.name, specs.get(node.name, {}))
        explicit = {}
        if self.spec and self.spec.get("recorders"):
            explicit = self.spec.get("recorders")
        for recorder in getattr(node, "recorders", []):
            histograms = []
            for h in recorder.histograms:
                if isinstance(h, Heatmap):
                    histograms.append({"kind": "heatmap", "prop_a": h.a.prop, "prop_b": h.b.prop, "range_a": [h.a.start, h.a.stop, h.a.bins], "range_b": [h.b.start, h.b.stop, h.b.bins]})
                else:
                    histograms.append({"kind": "hist", "prop": h.prop, "range": [h.start, h.stop, h.bins]})
            recorders.append({"name": recorder.name, "node": node.name, "event": recorder.event, "facet": list(recorder.facet) if recorder.facet else None, "histograms": histograms,
                              "auto": recorder.name in auto and recorder.name not in explicit})
    return {"nodes": nodes, "lights": lights, "recorders": recorders, "spec": self.spec}


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure"}, domain={
    "payload": {"op": ["set"], "path": ("tuple", ["nodes", "components"], ["a", "b"], ["k", "size"]), "value": ["$num", "$vec"]},
    "mcall:load": {"nodes?": {"a?": {"k?": "$num"}, "b?": {"k?": "$num", "size": "$num"}}, "components?": {"a?": {"size": "$num"}}}})
def patch_set(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    path = payload["path"]
    here = data
    for key in path[:-1]:
        if key not in here:
            here[key] = {}
        here = here[key]
    here[path[-1]] = _flow(payload["value"])
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32 P07", trials=300, params={"studio": "obj:Studio"}, opaque=("point_to_node",), abstract={"_round_trip_yaml": "pure", "_flow": "pure"}, domain={
    "payload": {"op": ["move"], "node": ["a", "b"], "world_position": "$vec"}, "call:anytree.PreOrderIter": ("tuple", "$obj", "$obj"), "attr:name": ["a", "b"], "attr:parent": [None, "$obj", "$obj"],
    "pcall:point_to_node": "$vec",
    "mcall:load": {"nodes": {"a": {"location?": "$vec", "k": "$num"}, "b": {"location?": "$vec"}}}})
def patch_move(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    name = payload["node"]
    world = payload["world_position"]
    found = {}
    for node in PreOrderIter(studio.scene.root):
        found[node.name] = node
    if found[name].parent is None:
        raise ValueError("root")
    local = studio.scene.root.point_to_node(tuple(world), found[name].parent)
    data["nodes"][name]["location"] = _flow([round(float(x), 6) for x in local])
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["add-node"], "kind": ["box", "light", "other"]}, "mcall:load": {"nodes": {"a?": {"k": "$num"}, "b?": {"k": "$num"}}}})
def patch_add_node(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    kind = payload["kind"]
    if kind not in SNIPPETS:
        raise ValueError(kind)
    name = _unique_name(data.get("nodes", {}), kind)
    data["nodes"][name] = copy.deepcopy(SNIPPETS[kind])
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["add-recorder"], "node": ["a", "b"]}, "mcall:load": {"nodes?": {"a?": {"k": "$num"}, "b?": {"k": "$num"}}, "recorders?": {"r1?": "$num", "r2?": "$num"}}})
def patch_add_recorder(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    node = payload["node"]
    if node not in data.get("nodes", {}):
        raise ValueError(node)
    if "recorders" not in data:
        data["recorders"] = {}
    recorders = data["recorders"]
    name = _unique_name(recorders, f"{node}-escaping")
    recorders[name] = {"node": node, "event": "escaping", "histograms": {"wavelength": [400, 900, 80]}}
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=200, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["add-face-recorders"], "node": ["a", "b"]}, "mcall:load": {"nodes?": {"a?": {"box?": {"size": ("tuple", [1, 3, 0.5], [2, 8, 5.5], [1, 4, 2])}}, "b?": {"box?": {"size": ("tuple", [1, 3, 0.5], [2, 8, 5.5], [1, 4, 2])}}},
                                                                                              "recorders?": {"a-top?": "$num", "b-east?": "$num", "a-south?": "$num"}}})
def patch_add_faces(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    node = payload["node"]
    node_spec = data.get("nodes", {}).get(node)
    if not node_spec or "box" not in node_spec:
        raise ValueError(node)
    sx, sy, sz = [float(v) for v in node_spec["box"]["size"]]
    if "recorders" not in data:
        data["recorders"] = {}
    recorders = data["recorders"]
    for label, facet, u, v, lu, lv in (("top", [0, 0, 1], "x", "y", sx, sy), ("bottom", [0, 0, -1], "x", "y", sx, sy), ("east", [1, 0, 0], "y", "z", sy, sz),
                                       ("west", [-1, 0, 0], "y", "z", sy, sz), ("north", [0, 1, 0], "x", "z", sx, sz), ("south", [0, -1, 0], "x", "z", sx, sz)):
        name = f"{node}-{label}"
        if name not in recorders:
            bu = max(10, min(60, int(lu * 10)))
            bv = max(10, min(60, int(lv * 10)))
            recorders[name] = {"node": node, "event": "escaping", "facet": _flow(facet),
                               "histograms": {"position": _flow([u, v, _flow([-lu / 2, lu / 2, bu]), _flow([-lv / 2, lv / 2, bv])])}}
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["add-component"]}, "mcall:load": {"nodes?": {"a?": {"k": "$num"}}, "components?": {"r1?": "$num", "r2?": "$num"}}})
def patch_add_component(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    if "components" not in data:
        data["components"] = {}
    name = _unique_name(data["components"], "absorber")
    data["components"][name] = {"absorber": {"coefficient": 1.0}}
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=900, rounds=7, maxlen=5, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["delete-component"], "component": ["r1", "r12"]}, "mcall:load": {
        "nodes?": {"a?": {"k": "$num", "box?": {"material?": {"components?": [None, ("seq", ["r1", "r12", "r3"])]}}, "mesh?": {"material": {"components": ("seq", ["r1", "r12"])}}},
                   "b?": {"sphere?": {"material": {"components": ("seq", ["r1", "r12"])}}, "cylinder?": {"material?": {"components": ("seq", ["r1", "r12"])}}}}, "components": {"r1": "$num", "r12?": "$num"}}})
def patch_delete_component(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    name = payload["component"]
    del data["components"][name]
    for node_spec in data.get("nodes", {}).values():
        for geom in ("box", "sphere", "cylinder", "mesh"):
            material = node_spec.get(geom, {}).get("material", {})
            names = material.get("components")
            if names and name in names:
                kept = []
                for c in names:
                    if c != name:
                        kept.append(c)
                material["components"] = kept
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure", "_recorder_to_spec": "effect"}, domain={
    "payload": {"op": ["update-recorder"], "recorder": ["r1", "r2"], "changes": {"event?": ["lost", "reacted"], "facet?": ["$vec", None], "atol?": "$num", "node?": "$num", "name?": "$num"}},
    "eff:_recorder_to_spec": {"node": "$num", "event": ["escaping"]},
    "mcall:load": {"nodes?": {"a?": {"k": "$num"}}, "recorders?": {"r1?": {"event?": ["escaping"], "node": "$num", "facet?": "$vec"}, "r2?": {"node": "$num"}}}})
def patch_update_recorder(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    name = payload["recorder"]
    if "recorders" not in data:
        data["recorders"] = {}
    if name not in data["recorders"]:
        data["recorders"][name] = _recorder_to_spec(studio, name)
    entry = data["recorders"][name]
    for key, value in payload["changes"].items():
        if key != "event" and key != "facet" and key != "atol":
            raise ValueError(key)
        if isinstance(value, list):
            entry[key] = _flow(value)
        else:
            entry[key] = value
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["delete-recorder"], "recorder": ["r1", "r2"]},
    "mcall:load": {"nodes?": {"a?": {"k": "$num"}}, "recorders?": {"r1?": "$num", "r2?": "$num", "r3?": "$num"}}})
def patch_delete_recorder(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    if "recorders" not in data:
        data["recorders"] = {}
    name = payload["recorder"]
    if name not in data["recorders"]:
        raise ValueError(name)
    del data["recorders"][name]
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", trials=300, params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["delete-node"], "node": ["a", "b"]},
    "mcall:load": {"nodes": {"a?": {"k": "$num"}, "b?": {"k": "$num"}}, "recorders?": [None, {"r1?": {"node?": ["a", "b"]}, "r2?": {"node": ["a", "b"]}, "r3?": {"node": ["b"]}}]}})
def patch_delete_node(studio, payload):
    ryaml = _round_trip_yaml()
    data = ryaml.load(io.StringIO(studio.document))
    name = payload["node"]
    del data["nodes"][name]
    recorders = data.get("recorders")
    if recorders:
        for r in list(recorders):
            if recorders[r].get("node") == name:
                del recorders[r]
    out = io.StringIO()
    ryaml.dump(data, out)
    return out.getvalue()


@spec("pvtrace/studio/server.py:_patch", props="P32", params={"studio": "obj:Studio"}, abstract={"_round_trip_yaml": "pure", "_flow": "pure", "_unique_name": "pure"}, domain={
    "payload": {"op": ["other", "", None]}, "mcall:load": {"nodes": {"a?": {"k": "$num"}, "b?": {"k": "$num"}}, "recorders?": [None, {"r1?": {"node?": ["a", "b"]}}]}})
def patch_unknown(studio, payload):
    data = _round_trip_yaml().load(io.StringIO(studio.document))
    operation = payload["op"]
    raise ValueError(operation)


@spec("pvtrace/studio/server.py:_flow", props="P32")
def flow(value):
    if not isinstance(value, list):
        return value
    seq = CommentedSeq(value)
    seq.fa.set_flow_style()
    return seq
