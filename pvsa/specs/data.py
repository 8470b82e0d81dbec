"""Reference spectra (pvtrace.data), and small parts not described elsewhere."""
import numpy as np
from pathlib import Path
from scipy.special import erf
from pvtrace.engine.compiler import CompiledScene
from pvtrace.studio.server import create_app
from pvtrace.geometry.transformable import Transformable


def peak(x, height, centre, width):
    return height * np.exp(-(((x - centre) / width) ** 2))


@spec("pvtrace/data/fluro_red.py:absorption", props="P31 P35", domain={"x": ("tuple", ("range", 200, 900), ("range", 200, 900), ("range", 200, 900))})
def fluro_absorption(x):
    s = peak(x, 439.06754804626956, 549.06438843562137, 24.298601639828647) + peak(x, 85.177292848284353, 379.48645797468572, 13.513987279089216) + \
        peak(x, 660.1731296017241, 519.58858977131513, 38.263352007649125) + peak(x, 511.11501615291041, 490.05625608592726, 52.213294432464529)
    return s / np.max(s)


@spec("pvtrace/data/fluro_red.py:emission", props="P31 P35", domain={"x": ("tuple", ("range", 450, 750), ("range", 450, 750), ("range", 450, 750))})
def fluro_emission(x):
    height = 1.1477763237584664
    centre = 592.06478874548839
    width = 19.981040318195117
    tail = 12.723704058786568
    return height * width * np.sqrt(2 * np.pi) / (2 * tail) * np.exp(width ** 2 / (2 * tail ** 2) - (x - centre) / tail) * (
        1 + erf((x - centre) / (np.sqrt(2) * width) - width / (np.sqrt(2) * tail)))


@spec("pvtrace/data/lumogen_f_red_305.py:absorption", props="P31 P35", domain={"x": ("tuple", ("range", 200, 900), ("range", 200, 900), ("range", 200, 900))})
def lumogen_absorption(x):
    s = peak(x, 0.9454846839252642, 578.6167306868869, 22.69760939870020) + peak(x, 0.6430326869158796, 535.1850303736512, 28.63029894331116) + \
        peak(x, 0.1243340609168971, 494.5721783546976, 13.98438275367119) + peak(x, 0.3651471532322375, 440.4679754085741, 34.91923613222621) + \
        peak(x, 0.7042787252835550, 336.0548556730901, 34.24136755250487)
    return s / np.max(s)


@spec("pvtrace/data/lumogen_f_red_305.py:emission", props="P31 P35", domain={"x": ("tuple", ("range", 450, 750), ("range", 450, 750), ("range", 450, 750))})
def lumogen_emission(x):
    return peak(x, 1.0, 600.0, 38.60)


@spec("pvtrace/material/surface.py:NullSurfaceDelegate.reflected_direction", props="P05")
def null_reflected(self, surface, ray, geometry, container, adjacent):
    raise NotImplementedError


@spec("pvtrace/engine/compiler.py:compile_scene", props="P10 P11", abstract={"CompiledScene": "pure"})
def compile_scene(scene):
    return CompiledScene(scene)


@spec("pvtrace/geometry/transformable.py:Transformable.from_pose", props="P22", domain={"new_value": "$mat4", "attr:shape": [("tuple", [4], [4]), ("tuple", [3], [3])]})
def from_pose(cls, new_value):
    if new_value.shape[0] != 4 or new_value.shape[1] != 4:
        raise ValueError
    t = cls()
    t._pose = np.array(new_value)
    t._location = np.array([new_value[0, 3], new_value[1, 3], new_value[2, 3]])
    return t


@spec("pvtrace/studio/server.py:main", props="P33", abstract={"create_app": "effect"})
def studio_main(document_path=None, host="127.0.0.1", port=8567, open_browser=True):
    import uvicorn
    import threading
    import webbrowser
    app = create_app(document_path)
    if open_browser:
        threading.Timer(1.0, webbrowser.open, args=(f"http://{host}:{port}",)).start()
    uvicorn.run(app, host=host, port=port, log_level="warning")


@spec("pvtrace/cli/main.py:studio", props="P27 P33", abstract={"main": "effect", "is_available": "effect"})
def studio(scene, port, no_browser):
    try:
        from pvtrace.studio.server import main as studio_main
    except ImportError:
        raise typer.Exit(code=1)
    import pvtrace.engine as engine
    if not engine.is_available():
        raise typer.Exit(code=1)
    studio_main(document_path=str(scene) if scene else None, port=port, open_browser=not no_browser)
