"""The query commands: the query they are named after, run with every option given to them."""
import sqlite3
import io
import numpy
import pandas
import termplotlib as apl
from pvtrace.cli import db
from pvtrace.cli import spectrum, time


@spec("pvtrace/cli/count.py:reflected", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]})
def count_reflected(node, database, nx, ny, nz, facet, source, atol):
    sql, params = db.sql_count_reflected_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/count.py:entering", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]})
def count_entering(node, database, nx, ny, nz, facet, source, atol):
    sql, params = db.sql_count_entering_into_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/count.py:escaping", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]})
def count_escaping(node, database, nx, ny, nz, facet, source, atol):
    sql, params = db.sql_count_escaping_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/count.py:lost", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]})
def count_lost(node, database, facet, source):
    sql, params = db.sql_count_nonradiative_loss_in_node(node, source=source)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/count.py:reacted", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]})
def count_reacted(node, database, source):
    sql, params = db.sql_count_reacted_in_node(node, source=source)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/count.py:killed", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]})
def count_killed(node, database, source):
    sql, params = db.sql_count_killed_in_node(node, source=source)
    print(sqlite3.connect(database).cursor().execute(sql, params).fetchone()[0])


@spec("pvtrace/cli/spectrum.py:reflected", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_reflected(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_spectrum_reflected_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:entering", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_entering(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_spectrum_entering_into_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:escaping", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_escaping(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_spectrum_escaping_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:lost", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_lost(node, database, source, output, vertical):
    sql, params = db.sql_spectrum_nonradiative_loss_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:reacted", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_reacted(node, database, source, output, vertical):
    sql, params = db.sql_spectrum_reacted_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:killed", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def spectrum_killed(node, database, source, output, vertical):
    sql, params = db.sql_spectrum_killed_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        spectrum.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/spectrum.py:handle_output", trials=300, props="P27", output=True)
def spectrum_handle_output(result, output, vertical=None):
    table = numpy.array(result)
    if output == spectrum.OutputChoice.plot:
        counts, edges = numpy.histogram(table[:, 1])
        figure = apl.figure()
        figure.hist(counts, edges, orientation="vertical" if vertical else "horizontal", force_ascii=False)
        figure.show()
        return
    if output == spectrum.OutputChoice.csv:
        buffer = io.StringIO()
        pandas.DataFrame(table[:, 1], columns=["nanometers"], index=table[:, 0].astype(int)).to_csv(buffer)
        print(buffer.getvalue())
    if output == spectrum.OutputChoice.json:
        buffer = io.StringIO()
        pandas.DataFrame(table[:, 1], columns=["nanometers"], index=table[:, 0].astype(int)).to_json(buffer)
        print(buffer.getvalue())


@spec("pvtrace/cli/time.py:reflected", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_reflected(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_time_reflected_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:entering", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_entering(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_time_entering_into_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:escaping", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "nx": [None, "$num", 0], "ny": [None, "$num", 0], "nz": [None, "$num", 0], "facet": [None, "$any", " Left%1"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_escaping(node, database, nx, ny, nz, facet, source, atol, output, vertical):
    sql, params = db.sql_time_escaping_from_node(node, nx=nx, ny=ny, nz=nz, facet=facet, source=source, atol=atol)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:lost", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_lost(node, database, source, output, vertical):
    sql, params = db.sql_time_nonradiative_loss_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:reacted", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_reacted(node, database, source, output, vertical):
    sql, params = db.sql_time_reacted_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:killed", props="P25 P26 P27", output=True, domain={"node": ["$any", " Glass%1 ", "it's_B"], "source": [None, "$any", " Lamp_A "]}, abstract={"handle_output": "effect"})
def time_killed(node, database, source, output, vertical):
    sql, params = db.sql_time_killed_in_node(node, source=source)
    found = sqlite3.connect(database).cursor().execute(sql, params).fetchall()
    if len(found) > 0:
        time.handle_output(found, output, vertical=vertical)


@spec("pvtrace/cli/time.py:handle_output", trials=300, props="P27", output=True)
def time_handle_output(result, output, vertical=None):
    table = numpy.array(result)
    if output == time.OutputChoice.plot:
        counts, edges = numpy.histogram(table[:, 1])
        figure = apl.figure()
        figure.hist(counts, edges, orientation="vertical" if vertical else "horizontal", force_ascii=False)
        figure.show()
        return
    if output == time.OutputChoice.csv:
        buffer = io.StringIO()
        pandas.DataFrame(table[:, 1], columns=["seconds"], index=table[:, 0].astype(int)).to_csv(buffer)
        print(buffer.getvalue())
    if output == time.OutputChoice.json:
        buffer = io.StringIO()
        pandas.DataFrame(table[:, 1], columns=["seconds"], index=table[:, 0].astype(int)).to_json(buffer)
        print(buffer.getvalue())
