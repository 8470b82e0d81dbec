"""The kernel's per-ray loop."""
import numpy as np
KB = 1.380649e-23 / 1.60217662e-19


@spec("pvtrace/engine/_kernel.pyx:trace_one", props="P01 P02 P03 P04 P05 P06 P07 P08 P12 P13 P14 P15 P16 P17",
      symbols=("C_CM_PER_S",),
      params={"pos": "arr3", "direction": "arr3"},
      abstract={"rng_uniform": "draw", "rng_seed": {"skip": [0]}, "intersect_node": ("out", 4, 8), "local_normal": ("out", 3, 3),
                "interp_clamped": "pure", "fresnel_reflectivity": "pure",
                "fresnel_refract": ("out", 4, 3), "specular_reflect": ("out", 2, 3), "tally": {"inout": {5: 2}}},
      domain={"sym:base": [-1, 0, 0, 0, 40], "attr:max_events": [2, 3, 5, 40, 40, 40], "sym:maxsteps": [0, 1, 4, 6, 9, 9],
              "attr:n_nodes": [1, 2, 3, 3], "attr:root": [0, 0, 1, 2, 2], "attr:n_recorders": ("sizes", 0, 2, 2), "pcall:intersect_node": [0, 1, 1, 1, 2, 2],
              "pcall:intersect_node.4": [("range", 0.2, 3.0), ("range", 0.2, 3.0), 1.0], "mem:comp_start": [0, 1, 2, 5], "mem:comp_count": [0, 1, 2, 2, 2],
              "pcall:interp_clamped": [0.3, 0.7, 1.1, 1.9, 2.5, 0.0, 1e-9], "mem:comp_type": [0, 1, 2, 3], "mem:comp_qy": [0.0, 0.7, 0.8, 1.0],
              "mem:comp_tau_rad": [0.0, 1.5], "mem:comp_tau_nr": [0.0, 2.5], "sym:C_CM_PER_S": "$pos", "sym:emit_method": [0, 1, 2],
              "mem:surf_type": [0, 0, 1], "pcall:fresnel_reflectivity": [0.0, 0.5, 0.7, 1.0, 3e-5], "mem:nidx": ("range", 1.0, 2.0)},
      trials=500, rounds=7)
@spec(case="surfaces", trials=300, domain={"mem:comp_count": [0], "attr:n_nodes": [3], "attr:root": [2], "attr:n_recorders": ("sizes", 2), "sym:base": [-1, 0], "sym:maxsteps": [9], "attr:max_events": [40], "pcall:intersect_node": [0, 1, 1, 2], "pcall:fresnel_reflectivity": [0.5, 0.7, 1.0, 0.0]})
@spec(case="volumes", trials=300, domain={"mem:comp_count": [1, 2], "attr:n_nodes": [2], "attr:root": [1], "attr:n_recorders": ("sizes", 2), "sym:base": [-1, 0], "sym:maxsteps": [9], "attr:max_events": [40], "pcall:intersect_node": [1, 2],
                                          "pcall:intersect_node.4": ("range", 2.0, 9.0), "pcall:interp_clamped": [0.3, 0.7, 1.1, 1.9], "mem:comp_qy": [0.3, 0.7, 0.8, 1.0]})
def trace_one(S, elog, base, AB, tid, pos, direction, wavelength, seed, maxsteps, emit_method):
    rng = 0
    rng_seed(rng, seed)
    seen = [0, 0]
    travelled = 0.0
    duration = 0.0
    source = -1
    steps = 0
    n = [0]
    o = [0.0, 0.0, 0.0]
    d = [0.0, 0.0, 0.0]
    p = [0.0, 0.0, 0.0]
    ts = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
    local = [0.0, 0.0, 0.0]
    normal = [0.0, 0.0, 0.0]
    along = [0.0, 0.0, 0.0]
    turned = [0.0, 0.0, 0.0]
    record(elog, base, n, 0, -1, -1, -1, -1, source, pos, direction, None, wavelength, travelled, duration)
    while True:
        steps += 1
        if base >= 0 and n[0] >= elog.max_events - 1:
            record(elog, base, n, 9, -1, -1, -1, -1, source, pos, direction, None, wavelength, travelled, duration)
            base = -1
        # nearest and second crossing, and the nearest node crossed exactly once
        t1 = 1e400
        t2 = 1e400
        hit = -1
        second = -1
        inside = -1
        nearest = 1e400
        total = 0
        for node in range(S.n_nodes):
            transform_point(S.w2l + 16 * node, pos, o)
            transform_vector(S.w2l + 16 * node, direction, d)
            m = intersect_node(S, node, o, d, ts)
            closest = 1e400
            for k in range(m):
                t = ts[k]
                if t < t1:
                    t2 = t1
                    second = hit
                    t1 = t
                    hit = node
                elif t < t2:
                    t2 = t
                    second = node
                if t < closest:
                    closest = t
            total += m
            if m == 1 and closest < nearest:
                nearest = closest
                inside = node
        if total == 0:
            break
        if total == 1 or inside < 0:
            inside = hit
        if total == 1:
            beyond = -1
        elif inside == hit:
            beyond = second
        else:
            beyond = hit
        if steps > maxsteps:
            record(elog, base, n, 9, -1, inside, -1, -1, source, pos, direction, None, wavelength, travelled, duration)
            if S.n_recorders > 0:
                transform_point(S.w2l + 16 * inside, pos, p)
                tally(S, AB, tid, 5, inside, seen, None, p, 0.0, wavelength, travelled, duration)
            break
        index = S.nidx[inside]
        if hit == S.root:
            for i in range(3):
                pos[i] = pos[i] + direction[i] * t1
            travelled += t1
            duration += t1 * index / C_CM_PER_S
            record(elog, base, n, 7, hit, inside, beyond, -1, source, pos, direction, None, wavelength, travelled, duration)
            if S.n_recorders > 0:
                transform_point(S.w2l + 16 * hit, pos, p)
                local_normal(S, hit, p, local)
                transform_vector(S.l2w + 16 * hit, local, normal)
                tally(S, AB, tid, 6, hit, seen, normal, p, acos(min(1.0, abs(dot3(normal, direction)))), wavelength, travelled, duration)
            break
        first = S.comp_start[inside]
        alpha = 0.0
        for c in range(first, first + S.comp_count[inside]):
            alpha += interp_clamped(wavelength, S.abs_x + S.abs_start[c], S.abs_y + S.abs_start[c], S.abs_n[c])
        depth = 1e400
        if alpha > 1e-8:
            depth = -log(1.0 - rng_uniform(rng)) / alpha
        if depth < t1:
            for i in range(3):
                pos[i] = pos[i] + direction[i] * depth
            travelled += depth
            duration += depth * index / C_CM_PER_S
            target = rng_uniform(rng) * alpha
            part = first
            run = 0.0
            for c in range(first, first + S.comp_count[inside]):
                run += interp_clamped(wavelength, S.abs_x + S.abs_start[c], S.abs_y + S.abs_start[c], S.abs_n[c])
                if target <= run:
                    part = c
                    break
            record(elog, base, n, 3, -1, inside, -1, part, source, pos, direction, None, wavelength, travelled, duration)
            kind = S.comp_type[part]
            radiative = False
            if kind == 1 or kind == 2:
                radiative = rng_uniform(rng) < S.comp_qy[part]
            if radiative:
                sample_phase(S.comp_phase_type[part], S.comp_phase_param[part], rng, turned)
                transform_vector(S.l2w + 16 * inside, turned, direction)
                source = part
                if kind == 2:
                    xs = S.ems_x + S.ems_start[part]
                    cdf = S.ems_cdf + S.ems_start[part]
                    m = S.ems_n[part]
                    low = 0.0
                    if emit_method == 1:
                        low = interp_clamped(wavelength, xs, cdf, m)
                    elif emit_method == 0:
                        low = interp_clamped(1240.0 / (1240.0 / wavelength + 1.5 * KB * 300.0), xs, cdf, m)
                    wavelength = interp_clamped(low + (1.0 - low) * rng_uniform(rng), cdf, xs, m)
                    if S.comp_tau_rad[part] > 0.0:
                        duration += -log(1.0 - rng_uniform(rng)) * S.comp_tau_rad[part]
                    record(elog, base, n, 6, -1, inside, -1, part, source, pos, direction, None, wavelength, travelled, duration)
                else:
                    record(elog, base, n, 5, -1, inside, -1, part, source, pos, direction, None, wavelength, travelled, duration)
                continue
            if S.comp_tau_nr[part] > 0.0:
                duration += -log(1.0 - rng_uniform(rng)) * S.comp_tau_nr[part]
            if kind == 3:
                record(elog, base, n, 8, -1, inside, -1, part, source, pos, direction, None, wavelength, travelled, duration)
                end = 4
            else:
                record(elog, base, n, 4, -1, inside, -1, part, source, pos, direction, None, wavelength, travelled, duration)
                end = 3
            if S.n_recorders > 0:
                transform_point(S.w2l + 16 * inside, pos, p)
                tally(S, AB, tid, end, inside, seen, None, p, 0.0, wavelength, travelled, duration)
            break
        for i in range(3):
            pos[i] = pos[i] + direction[i] * t1
        travelled += t1
        duration += t1 * index / C_CM_PER_S
        if beyond < 0:
            record(elog, base, n, 9, hit, inside, -1, -1, source, pos, direction, None, wavelength, travelled, duration)
            break
        transform_point(S.w2l + 16 * hit, pos, p)
        local_normal(S, hit, p, local)
        transform_vector(S.l2w + 16 * hit, local, normal)
        side = 1.0
        if dot3(normal, direction) < 0.0:
            side = -1.0
        for i in range(3):
            along[i] = side * normal[i]
        angle = acos(min(1.0, dot3(along, direction)))
        r = 0.0
        if S.surf_type[hit] == 0:
            r = fresnel_reflectivity(angle, S.nidx[inside], S.nidx[beyond])
        u = 1.0
        if r > 0.0:
            u = rng_uniform(rng)
        if u < r:
            specular_reflect(direction, normal, turned)
            for i in range(3):
                direction[i] = turned[i]
            record(elog, base, n, 1, hit, inside, beyond, -1, source, pos, direction, normal, wavelength, travelled, duration)
            if S.n_recorders > 0 and inside != hit:
                tally(S, AB, tid, 2, hit, seen, normal, p, angle, wavelength, travelled, duration)
        else:
            if S.surf_type[hit] == 0:
                fresnel_refract(direction, along, S.nidx[inside], S.nidx[beyond], turned)
                for i in range(3):
                    direction[i] = turned[i]
            record(elog, base, n, 2, hit, inside, beyond, -1, source, pos, direction, normal, wavelength, travelled, duration)
            if S.n_recorders > 0:
                if inside == hit:
                    sel = 1
                else:
                    sel = 0
                tally(S, AB, tid, sel, hit, seen, normal, p, angle, wavelength, travelled, duration)
    return n[0]



@spec("pvtrace/engine/_kernel.pyx:trace_bundle", props="P09 P10 P12 P13 P14 P16 P17", abstract={"trace_one": "effect"}, opaque=("threadid",), alloc=True, trials=60, rounds=6,
      domain={"attr:data": "$ptr", "sym:record_every": [0, 1, 2, 3], "sym:max_events": [2, 5], "sym:num_threads": [0, 1, 4], "attr:shape": ("tuple", [0, 1, 3, 4, 5, 128, 129], [3])})
def trace_bundle(compiled, positions, directions, wavelengths, seed, maxsteps, max_events, emit_method, num_threads, record_every):
    n = positions.shape[0]
    n_recorded = 0
    if record_every > 0:
        n_recorded = (n + record_every - 1) // record_every
    rows = n_recorded * max_events
    if compiled.geom_type.shape[0] > 128:
        raise ValueError()
    S = __struct__("S")
    S.n_nodes = compiled.geom_type.shape[0]
    S.root = compiled.root_id
    S.geom_type = compiled.geom_type.data
    S.geom_params = compiled.geom_params.data
    S.l2w = compiled.local_to_world.data
    S.w2l = compiled.world_to_local.data
    S.nidx = compiled.refractive_index.data
    S.surf_type = compiled.surface_type.data
    S.comp_start = compiled.comp_start.data
    S.comp_count = compiled.comp_count.data
    S.comp_type = compiled.comp_type.data
    S.comp_qy = compiled.comp_qy.data
    S.comp_tau_rad = compiled.comp_tau_rad.data
    S.comp_tau_nr = compiled.comp_tau_nr.data
    S.comp_phase_type = compiled.comp_phase_type.data
    S.comp_phase_param = compiled.comp_phase_param.data
    S.abs_start = compiled.comp_abs_start.data
    S.abs_n = compiled.comp_abs_n.data
    S.ems_start = compiled.comp_ems_start.data
    S.ems_n = compiled.comp_ems_n.data
    S.abs_x = compiled.abs_x.data
    S.abs_y = compiled.abs_y.data
    S.ems_x = compiled.ems_x.data
    S.ems_cdf = compiled.ems_cdf.data
    S.n_recorders = compiled.rec_node.shape[0]
    S.total_bins = compiled.total_bins
    S.rec_node = compiled.rec_node.data
    S.rec_event = compiled.rec_event.data
    S.rec_has_facet = compiled.rec_has_facet.data
    S.rec_facet = compiled.rec_facet.data
    S.rec_atol = compiled.rec_atol.data
    S.rec_hist_start = compiled.rec_hist_start.data
    S.rec_hist_n = compiled.rec_hist_n.data
    S.h_prop_a = compiled.hist_prop_a.data
    S.h_prop_b = compiled.hist_prop_b.data
    S.h_na = compiled.hist_na.data
    S.h_nb = compiled.hist_nb.data
    S.h_lo_a = compiled.hist_lo_a.data
    S.h_hi_a = compiled.hist_hi_a.data
    S.h_lo_b = compiled.hist_lo_b.data
    S.h_hi_b = compiled.hist_hi_b.data
    S.h_offset = compiled.hist_offset.data
    threads = max(1, num_threads)
    AB = __struct__("AB")
    distinct = np.zeros((threads, max(1, S.n_recorders)), dtype=np.int64)
    cross = np.zeros((threads, max(1, S.n_recorders)), dtype=np.int64)
    sums = np.zeros((threads, max(1, S.n_recorders) * 8), dtype=np.float64)
    bins = np.zeros((threads, max(1, S.total_bins)), dtype=np.int64)
    AB.distinct = distinct.data
    AB.cross = cross.data
    AB.sums = sums.data
    AB.bins = bins.data
    log = __struct__("log")
    kind = np.zeros(rows, dtype=np.uint8)
    hit = np.full(rows, -1, dtype=np.int32)
    container = np.full(rows, -1, dtype=np.int32)
    adjacent = np.full(rows, -1, dtype=np.int32)
    component = np.full(rows, -1, dtype=np.int32)
    source = np.full(rows, -1, dtype=np.int32)
    position = np.zeros((rows, 3), dtype=np.float64)
    direction = np.zeros((rows, 3), dtype=np.float64)
    normal = np.zeros((rows, 3), dtype=np.float64)
    wavelength = np.zeros(rows, dtype=np.float64)
    travelled = np.zeros(rows, dtype=np.float64)
    duration = np.zeros(rows, dtype=np.float64)
    counts = np.zeros(max(n_recorded, 1), dtype=np.int32)
    log.kind = kind.data
    log.hit = hit.data
    log.container = container.data
    log.adjacent = adjacent.data
    log.component = component.data
    log.source = source.data
    log.position = position.data
    log.direction = direction.data
    log.normal = normal.data
    log.wavelength = wavelength.data
    log.travelled = travelled.data
    log.duration = duration.data
    log.max_events = max_events
    start = positions.copy().data
    heading = directions.copy().data
    for i in range(n):
        if record_every > 0 and i % record_every == 0:
            events = trace_one(S, log, i // record_every * max_events, AB, threadid(), start + 3 * i, heading + 3 * i, wavelengths.data[i], seed + i, maxsteps, emit_method)
            counts.data[i // record_every] = events
        else:
            trace_one(S, log, -1, AB, threadid(), start + 3 * i, heading + 3 * i, wavelengths.data[i], seed + i, maxsteps, emit_method)
    return {"counts": counts[:n_recorded], "rec_distinct": distinct.sum(axis=0)[:S.n_recorders],
            "rec_crossings": cross.sum(axis=0)[:S.n_recorders],
            "rec_sums": sums.sum(axis=0)[:S.n_recorders * 8].reshape(S.n_recorders, 4, 2),
            "rec_bins": bins.sum(axis=0)[:S.total_bins], "kind": kind, "hit": hit, "container": container, "adjacent": adjacent,
            "component": component, "source": source, "position": position, "direction": direction, "normal": normal,
            "wavelength": wavelength, "travelled": travelled, "duration": duration}
