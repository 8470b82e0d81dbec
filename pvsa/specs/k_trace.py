"""The kernel's event log, recorder tallies and per-ray loop."""
EPS = 2.220446049250313e-13


@spec("pvtrace/engine/_kernel.pyx:record", props="P01 P03 P13 P16 P17",
      params={"count": "box", "pos": "arr3", "direction": "arr3", "normal": "arr3"},
      domain={"sym:base": [-1, 0, 8, 16], "sym:count": [0, 1, 2, 3, 4], "attr:max_events": [0, 1, 2, 3, 4]}, trials=120)
def record_normal(elog, base, count, kind, hit, container, adjacent, component, source, pos, direction, normal,
                  wavelength, travelled, duration):
    if base >= 0 and count[0] < elog.max_events:
        row = base + count[0]
        elog.kind[row] = kind
        elog.hit[row] = hit
        elog.container[row] = container
        elog.adjacent[row] = adjacent
        elog.component[row] = component
        elog.source[row] = source
        elog.wavelength[row] = wavelength
        elog.travelled[row] = travelled
        elog.duration[row] = duration
        for i in range(3):
            elog.position[3 * row + i] = pos[i]
            elog.direction[3 * row + i] = direction[i]
            elog.normal[3 * row + i] = normal[i]
        count[0] = count[0] + 1


@spec("pvtrace/engine/_kernel.pyx:record", props="P01 P03 P13 P16 P17",
      params={"count": "box", "pos": "arr3", "direction": "arr3", "normal": "none"},
      domain={"sym:base": [-1, 0, 8, 16], "sym:count": [0, 1, 2, 3, 4], "attr:max_events": [0, 1, 2, 3, 4]}, trials=120)
def record_plain(elog, base, count, kind, hit, container, adjacent, component, source, pos, direction, normal,
                 wavelength, travelled, duration):
    if base >= 0 and count[0] < elog.max_events:
        row = base + count[0]
        elog.kind[row] = kind
        elog.hit[row] = hit
        elog.container[row] = container
        elog.adjacent[row] = adjacent
        elog.component[row] = component
        elog.source[row] = source
        elog.wavelength[row] = wavelength
        elog.travelled[row] = travelled
        elog.duration[row] = duration
        for i in range(3):
            elog.position[3 * row + i] = pos[i]
            elog.direction[3 * row + i] = direction[i]
            elog.normal[3 * row + i] = 0.0
        count[0] = count[0] + 1


@spec("pvtrace/engine/_kernel.pyx:tally", props="P10 P12 P13 P14 P15",
      params={"wnormal": "arr3", "lpos": "arr3"}, opaque=("prop_value",), trials=1000, rounds=3,
      domain={"attr:n_recorders": ("sizes", 0, 1, 2, 2, 2, 2), "attr:rec_node": "$ptr", "attr:rec_event": "$ptr", "sym:node": [0, 0, 0, 1],
              "sym:sel": [0, 0, 0, 1], "mem:rec_node": [0, 0, 0, 0, 1], "mem:rec_event": [0, 0, 0, 0, 1], "mem:rec_has_facet": [0, 1],
              "mem:rec_atol": [0.0, 0.5, 1.0, 2.0], "mem:rec_facet": [0.0, 0.0, 0.5, 1.0, -0.5], "sym:wnormal_0": [0.0, 0.0, 0.5, 1.0, -0.5], "sym:wnormal_1": [0.0, 0.0, 0.5, 1.0, -0.5], "sym:wnormal_2": [0.0, 0.0, 0.5, 1.0, -0.5], "mem:rec_hist_n": [1, 2, 2, 2, 0], "mem:rec_hist_start": [0, 1, 4],
              "mem:h_prop_b": [-1, 0, 3], "mem:h_na": [1, 2, 5], "mem:h_nb": [1, 2, 5],
              "mem:h_lo_a": [-1.0, ("range", -2.0, -0.5)], "mem:h_hi_a": [1.0, ("range", 0.5, 2.0)],
              "mem:h_lo_b": [-1.0, ("range", -2.0, -0.5)], "mem:h_hi_b": [1.0, ("range", 0.5, 2.0)],
              "prop_value": [-1.0, 1.0, ("range", -1.2, 1.2), ("range", -1.2, 1.2), ("range", -1.2, 1.2), ("range", -1.2, 1.2), ("range", -2.5, 2.5)], "mem:seen": [0, 0, 0, 1], "attr:total_bins": [10, 20], "sym:tid": [0, 1, 2]})
def tally_normal(S, AB, tid, sel, node, seen, wnormal, lpos, angle, wavelength, travelled, duration):
    for r in range(S.n_recorders):
        if S.rec_node[r] == node and S.rec_event[r] == sel:
            ok = True
            if S.rec_has_facet[r]:
                for i in range(3):
                    if abs(S.rec_facet[3 * r + i] - wnormal[i]) > S.rec_atol[r]:
                        ok = False
            if ok:
                AB.cross[tid * S.n_recorders + r] += 1
                if not seen[r]:
                    seen[r] = 1
                    AB.distinct[tid * S.n_recorders + r] += 1
                    sums = AB.sums + 8 * (tid * S.n_recorders + r)
                    sums[0] += wavelength
                    sums[1] += wavelength ** 2
                    sums[2] += angle
                    sums[3] += angle ** 2
                    sums[4] += duration
                    sums[5] += duration ** 2
                    sums[6] += travelled
                    sums[7] += travelled ** 2
                    for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
                        bins = AB.bins + tid * S.total_bins + S.h_offset[h]
                        va = prop_value(S.h_prop_a[h], wavelength, angle, duration, travelled, lpos)
                        if S.h_lo_a[h] <= va < S.h_hi_a[h]:
                            ia = int((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
                            if 0 <= ia < S.h_na[h]:
                                if S.h_prop_b[h] < 0:
                                    bins[ia] += 1
                                else:
                                    vb = prop_value(S.h_prop_b[h], wavelength, angle, duration, travelled, lpos)
                                    if S.h_lo_b[h] <= vb < S.h_hi_b[h]:
                                        ib = int((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
                                        if 0 <= ib < S.h_nb[h]:
                                            bins[ia * S.h_nb[h] + ib] += 1


@spec("pvtrace/engine/_kernel.pyx:tally", props="P13 P15",
      params={"wnormal": "none", "lpos": "arr3"}, opaque=("prop_value",), trials=400, rounds=3,
      domain={"attr:n_recorders": ("sizes", 0, 1, 2, 2), "sym:node": [0, 0, 0, 1], "sym:sel": [0, 0, 0, 1], "mem:rec_node": [0, 1],
              "mem:rec_event": [0, 1], "mem:rec_has_facet": [0, 1], "mem:rec_hist_n": [0], "mem:seen": [0, 0, 0, 1],
              "attr:total_bins": [10, 20], "sym:tid": [0, 1, 2]})
def tally_plain(S, AB, tid, sel, node, seen, wnormal, lpos, angle, wavelength, travelled, duration):
    for r in range(S.n_recorders):
        if S.rec_node[r] == node and S.rec_event[r] == sel and not S.rec_has_facet[r]:
            AB.cross[tid * S.n_recorders + r] += 1
            if not seen[r]:
                seen[r] = 1
                AB.distinct[tid * S.n_recorders + r] += 1
                sums = AB.sums + 8 * (tid * S.n_recorders + r)
                sums[0] += wavelength
                sums[1] += wavelength ** 2
                sums[2] += angle
                sums[3] += angle ** 2
                sums[4] += duration
                sums[5] += duration ** 2
                sums[6] += travelled
                sums[7] += travelled ** 2
