"""What the simulate command stores, and when it stops."""
import sqlite3
import os
import threading
import multiprocessing
import time as pytime
import typer
from queue import Empty
from pvtrace.cli import main
from pvtrace.cli.parse import parse
from pvtrace.scene.renderer import MeshcatRenderer


@spec("pvtrace/cli/main.py:write_ray", props="P24 P26", output=True)
def write_ray(cur, ray, global_throw_id):
    cur.execute("INSERT INTO ray (throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)",
                (global_throw_id, ray.position[0], ray.position[1], ray.position[2], ray.direction[0], ray.direction[1],
                 ray.direction[2], ray.wavelength, ray.source, ray.travelled, ray.duration))
    return cur.lastrowid


@spec("pvtrace/cli/main.py:write_event", props="P24 P26", output=True, domain={"normal": "$vec", "metadata": [None, {}, {"component?": [None, "$opq"], "hit?": [None, "$opq"], "container?": [None, "$opq"], "adjacent?": [None, "$opq"], "facet?": [None, "$opq"], "normal?": "$vec"}, {"component": [None, "$opq"], "hit": [None, "$opq"], "container": "$opq", "adjacent": [None, "$opq"], "facet?": "$opq", "normal": "$vec"}]})
def write_event(cur, event, metadata, ray_db_id):
    if metadata:
        component = metadata.get("component", None)
        hit = metadata.get("hit", None)
        container = metadata.get("container", None)
        adjacent = metadata.get("adjacent", None)
        facet = metadata.get("facet", None)
        normal = metadata.get("normal", (None, None, None))
        cur.execute("INSERT INTO event (ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?)",
                    (ray_db_id, event.name, component, hit, container, adjacent, facet) + normal)
    else:
        cur.execute("INSERT INTO event (ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?)",
                    (ray_db_id, event.name, None, None, None, None, None, None, None, None))


@spec("pvtrace/cli/main.py:prepare_database", trials=500, props="P24 P29", output=True)
def prepare_database(dbfilepath):
    with open(main.SCHEMA) as file:
        connection = sqlite3.connect(dbfilepath)
        connection.cursor().executescript(file.read())
        connection.commit()
        connection.close()


@spec("pvtrace/cli/main.py:monitor_queue", props="P24 P28", output=True, trials=900, rounds=8, domain={"eff:.get": ("tuple", [11, 12], [0, 1, 2, "$int"], "$obj", "$event", "$obj"), "eff:.is_set": [True, False, False], "eff:.empty": [True, False], "skip": [1, 2, 3]}, abstract={"write_ray": "effect", "write_event": "effect", "remove": "effect", "render": "effect", "add_history": "effect"})
def monitor_queue(dbfilepath, queue, stop, progress, scene_obj, zmq, wireframe, skip, max_histories):
    connection = sqlite3.connect(dbfilepath)
    renderer = None
    if zmq:
        renderer = MeshcatRenderer(zmq_url=zmq, open_browser=False, wireframe=wireframe, max_histories=max_histories)
        renderer.remove(scene_obj)
        renderer.render(scene_obj)
        renderer.vis.open()
    completed = 0
    counts = {}
    ids = {}
    shown = {}
    while True:
        if stop.is_set() and queue.empty():
            connection.close()
            return
        try:
            info = queue.get(True, 0.1)
            pid, throw, ray, event = info[:4]
            counts[pid] = throw + 1
            if sum(counts.values()) > completed:
                completed = completed + 1
                progress.update(1)
            if (pid, throw) not in ids:
                ids[(pid, throw)] = len(ids)
                if pid in shown and len(shown[pid]) > 1 and renderer:
                    renderer.add_history(shown[pid])
                if len(ids) % skip == 0 or throw == 0:
                    shown[pid] = []
                elif pid in shown:
                    shown.pop(pid)
            if pid in shown:
                shown[pid].append((ray, event))
            cur = connection.cursor()
            row = main.write_ray(cur, ray, ids[(pid, throw)])
            main.write_event(cur, event, info[4], row)
            connection.commit()
        except Empty:
            pass


@spec("pvtrace/cli/main.py:simulate", props="P20 P27 P28 P29", output=False, trials=200, abstract={"parse": "effect", "prepare_database": "effect", "simulate": "effect", "monitor_queue": "effect"}, domain={"overwrite": [True, False, None], "eff:.empty": [True, False], "eff:typer.confirm": [True, True, False]})
def simulate(scene, rays, workers, end_rays, seed, overwrite, zmq, wireframe, render_every, render_max):
    built = parse(scene)
    path = os.path.abspath(os.path.splitext(scene)[0]) + ".sqlite3"
    if os.path.exists(path):
        if overwrite:
            os.remove(path)
        elif typer.confirm("Overwrite existing database file?", abort=True):
            os.remove(path)
    main.prepare_database(path)
    queue = multiprocessing.Manager().Queue(maxsize=10000)
    stop = threading.Event()
    with typer.progressbar(length=rays) as progress:
        thread = threading.Thread(target=main.monitor_queue, args=(path, queue, stop, progress, built, zmq, wireframe, render_every, render_max))
        thread.start()
        try:
            built.simulate(rays, workers=workers, seed=seed, queue=queue, end_rays=end_rays)
        finally:
            while not queue.empty():
                pytime.sleep(0.2)
            stop.set()
            thread.join()


@spec("pvtrace/cli/main.py:show", props="P27", abstract={"parse": "effect", "remove": "effect", "render": "effect"})
def show(zmq, scene, wireframe):
    built = parse(str(scene.absolute()))
    renderer = MeshcatRenderer(zmq_url=zmq, open_browser=False, wireframe=wireframe)
    renderer.remove(built)
    renderer.render(built)
    renderer.vis.open()
