"""Which interactions each database query selects."""


def boundary(select, columns, node, kind, side, nx, ny, nz, facet, source, atol):
    sql = select + " FROM (SELECT DISTINCT " + columns + " FROM ray INNER JOIN event ON ray.rowid = event.ray_id WHERE hit = ? AND " + side + " = ? AND kind = ?"
    params = (node, node, kind)
    if nx is not None:
        sql = sql + " AND ABS(? - ni) <= ?"
        params = params + (nx, atol)
    if ny is not None:
        sql = sql + " AND ABS(? - nj) <= ?"
        params = params + (ny, atol)
    if nz is not None:
        sql = sql + " AND ABS(? - nk) <= ?"
        params = params + (nz, atol)
    if facet:
        sql = sql + " AND facet = ?"
        params = params + (facet,)
    if source:
        sql = sql + " AND source = ?"
        params = params + (source,)
    return sql + ")", params


def volume(select, columns, node, kind, source):
    sql = select + " FROM (SELECT DISTINCT " + columns + " FROM ray INNER JOIN event ON ray.rowid = event.ray_id WHERE container = ? AND kind = ?"
    params = (node, kind)
    if source:
        sql = sql + " AND source = ?"
        params = params + (source,)
    return sql + ")", params


@spec("pvtrace/cli/db.py:sql_count_reflected_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_reflected(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT COUNT(*)", "throw_id", node, "REFLECT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_count_entering_into_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_entering(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT COUNT(*)", "throw_id", node, "TRANSMIT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_count_escaping_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_escaping(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT COUNT(*)", "throw_id", node, "TRANSMIT", "container", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_count_nonradiative_loss_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_nonradiative(node, source=None):
    return volume("SELECT COUNT(*)", "throw_id", node, "NONRADIATIVE", source)


@spec("pvtrace/cli/db.py:sql_count_reacted_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_reacted(node, source=None):
    return volume("SELECT COUNT(*)", "throw_id", node, "REACT", source)


@spec("pvtrace/cli/db.py:sql_count_killed_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def count_killed(node, source=None):
    return volume("SELECT COUNT(*)", "throw_id", node, "KILL", source)


@spec("pvtrace/cli/db.py:sql_spectrum_reflected_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_reflected(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, wavelength", "throw_id, wavelength", node, "REFLECT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_spectrum_entering_into_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_entering(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, wavelength", "throw_id, wavelength", node, "TRANSMIT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_spectrum_escaping_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_escaping(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, wavelength", "throw_id, wavelength", node, "TRANSMIT", "container", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_spectrum_nonradiative_loss_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_nonradiative(node, source=None):
    return volume("SELECT throw_id, wavelength", "throw_id, wavelength", node, "NONRADIATIVE", source)


@spec("pvtrace/cli/db.py:sql_spectrum_reacted_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_reacted(node, source=None):
    return volume("SELECT throw_id, wavelength", "throw_id, wavelength", node, "REACT", source)


@spec("pvtrace/cli/db.py:sql_spectrum_killed_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def spectrum_killed(node, source=None):
    return volume("SELECT throw_id, wavelength", "throw_id, wavelength", node, "KILL", source)


@spec("pvtrace/cli/db.py:sql_time_reflected_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_reflected(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, duration", "throw_id, duration", node, "REFLECT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_time_entering_into_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_entering(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, duration", "throw_id, duration", node, "TRANSMIT", "adjacent", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_time_escaping_from_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1", "O'Hara"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_escaping(node, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    return boundary("SELECT throw_id, duration", "throw_id, duration", node, "TRANSMIT", "container", nx, ny, nz, facet, source, atol)


@spec("pvtrace/cli/db.py:sql_time_nonradiative_loss_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_nonradiative(node, source=None):
    return volume("SELECT throw_id, duration", "throw_id, duration", node, "NONRADIATIVE", source)


@spec("pvtrace/cli/db.py:sql_time_reacted_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_reacted(node, source=None):
    return volume("SELECT throw_id, duration", "throw_id, duration", node, "REACT", source)


@spec("pvtrace/cli/db.py:sql_time_killed_in_node", props="P25 P26 P27", domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A ", "x' OR 1"]})
def time_killed(node, source=None):
    return volume("SELECT throw_id, duration", "throw_id, duration", node, "KILL", source)
