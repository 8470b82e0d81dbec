"""The kernel's helpers: transforms, tables, geometry, optics, sampling."""
EPS = 2.220446049250313e-13
K = "pvtrace/engine/_kernel.pyx:"


@spec("pvtrace/engine/_kernel.pyx:dot3", props="P05 P38", params={"a": "arr3", "b": "arr3"})
def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@spec("pvtrace/engine/_kernel.pyx:transform_point", props="P07", params={"p": "arr3", "out": "out3"})
def transform_point(m, p, out):
    for i in range(3):
        out[i] = m[4 * i] * p[0] + m[4 * i + 1] * p[1] + m[4 * i + 2] * p[2] + m[4 * i + 3]


@spec("pvtrace/engine/_kernel.pyx:transform_vector", props="P07", params={"v": "arr3", "out": "out3"})
def transform_vector(m, v, out):
    for i in range(3):
        out[i] = m[4 * i] * v[0] + m[4 * i + 1] * v[1] + m[4 * i + 2] * v[2]


@spec("pvtrace/engine/_kernel.pyx:intersect_box", props="P38 P08", params={"params": "arr3", "o": "arr3", "d": "arr3", "ts": "out8"},
      domain={"sym:params_0": [1.0, 2.0, 3.1], "sym:params_1": [1.0, 2.0, 3.1], "sym:params_2": [1.0, 2.0, 3.1],
              "sym:d_0": [0.0, 0.3, -0.7, 1.0, -1.0, 0.45, -0.05, 3e-7], "sym:d_1": [0.0, 0.3, -0.7, 1.0, -1.0, 0.45, 0.05, -2e-5],
              "sym:d_2": [0.0, 0.3, -0.7, 1.0, -1.0, 0.45, 0.1, 2e-4],
              "sym:o_0": [-3.0, -2.5, -1.3, 0.0, 0.4, 0.9, 2.2, 0.5, 1.0, -0.3, -0.50000000000003, 0.49999999999997, -1.00000000000003, 0.99999999999997],
              "sym:o_1": [-0.5, -1.0, 0.35, 0.0, 0.4, 0.9, 2.2, 0.5, 1.0, -0.3],
              "sym:o_2": [-0.5, -1.0, -0.35, 0.0, 0.4, 0.9, 3.2, 0.5, 1.0, -0.3]}, trials=600)
def box_hits(params, o, d, ts):
    lo_t = -1e400
    hi_t = 1e400
    n = 0
    for axis in range(3):
        h = params[axis] / 2
        if abs(d[axis]) < 1e-300:
            if abs(o[axis]) > h:
                return 0
        else:
            a = (-h - o[axis]) / d[axis]
            b = (h - o[axis]) / d[axis]
            lo_t = max(lo_t, min(a, b))
            hi_t = min(hi_t, max(a, b))
    if hi_t < lo_t:
        return 0
    if lo_t > EPS:
        ts[n] = lo_t
        n += 1
    if hi_t > EPS:
        ts[n] = hi_t
        n += 1
    return n


@spec("pvtrace/engine/_kernel.pyx:intersect_sphere", props="P38 P08",
      params={"params": "arr1", "o": "arr3", "d": "arr3", "ts": "out8"}, trials=240,
      domain={"sym:params_0": [("range", 0.5, 3.0), 1.0], "sym:o_0": [("range", -1.5, 1.5), 0.0],
              "sym:o_1": [("range", -1.5, 1.5), 0.0], "sym:o_2": [("range", -3.0, 3.0), 0.99999999999996, -1.00000000000004, 1.00000000000004],
              "sym:d_0": [("range", -1.0, 1.0), 0.3], "sym:d_1": [("range", -1.0, 1.0), 0.2], "sym:d_2": [("range", -1.0, 1.0), 0.9, -0.9]})
def sphere_hits(params, o, d, ts):
    a = d[0] ** 2 + d[1] ** 2 + d[2] ** 2
    b = d[0] * o[0] + d[1] * o[1] + d[2] * o[2]
    c = o[0] ** 2 + o[1] ** 2 + o[2] ** 2 - params[0] ** 2
    q = b * b - a * c
    n = 0
    if q < 0:
        return 0
    t1 = (-b - sqrt(q)) / a
    t2 = (-b + sqrt(q)) / a
    if t1 > EPS:
        ts[n] = t1
        n += 1
    if t2 > EPS:
        ts[n] = t2
        n += 1
    return n


@spec("pvtrace/engine/_kernel.pyx:intersect_cylinder", props="P38 P08",
      params={"params": "arr2", "o": "arr3", "d": "arr3", "ts": "out8"}, trials=400,
      domain={"sym:params_0": [("range", 1.0, 6.0), 2.0], "sym:params_1": ("range", 0.5, 3.0), "sym:o_0": [("range", -2.0, 2.0), 0.1],
              "sym:o_1": [("range", -2.0, 2.0), 0.2], "sym:o_2": [("range", -4.0, 4.0), ("range", -4.0, 4.0), 0.99999999999996, -1.00000000000004, 1.00000000000004],
              "sym:d_0": [("range", -1.0, 1.0), ("range", -1.0, 1.0), 2e-5], "sym:d_1": [("range", -1.0, 1.0), ("range", -1.0, 1.0), 2e-5],
              "sym:d_2": [("range", -1.0, 1.0), ("range", -1.0, 1.0), ("range", -1.0, 1.0), 2e-5, 3e-4]})
def cylinder_hits(params, o, d, ts):
    h = params[0] / 2
    radius = params[1]
    a = d[0] ** 2 + d[1] ** 2
    ok = [False, False, False, False]
    t = [0.0, 0.0, 0.0, 0.0]
    if a > 1e-300:
        b = o[0] * d[0] + o[1] * d[1]
        c = o[0] ** 2 + o[1] ** 2 - radius ** 2
        q = b * b - a * c
        if q >= 0:
            t[0] = (-b - sqrt(q)) / a
            t[1] = (-b + sqrt(q)) / a
            ok[0] = -h < o[2] + t[0] * d[2] < h
            ok[1] = -h < o[2] + t[1] * d[2] < h
    if abs(d[2]) > 1e-300:
        t[2] = (-h - o[2]) / d[2]
        t[3] = (h - o[2]) / d[2]
        ok[2] = (o[0] + t[2] * d[0]) ** 2 + (o[1] + t[2] * d[1]) ** 2 <= radius ** 2
        ok[3] = (o[0] + t[3] * d[0]) ** 2 + (o[1] + t[3] * d[1]) ** 2 <= radius ** 2
    n = 0
    for i in range(4):
        if ok[i] and t[i] > EPS:
            ts[n] = t[i]
            n += 1
    return n


@spec("pvtrace/engine/_kernel.pyx:intersect_node", props="P10 P12 P38 P08",
      params={"o": "arr3", "d": "arr3", "ts": "out8"},
      opaque=("intersect_box", "intersect_sphere", "intersect_cylinder"),
      domain={"attr:geom_type": "$ptr"})
def intersect_node(S, node, o, d, ts):
    params = S.geom_params + 4 * node
    kind = S.geom_type[node]
    if kind == 0:
        return intersect_box(params, o, d, ts)
    if kind == 1:
        return intersect_sphere(params, o, d, ts)
    return intersect_cylinder(params, o, d, ts)


@spec("pvtrace/engine/_kernel.pyx:local_normal", props="P38 P10 P12", params={"p": "arr3", "out": "out3"}, trials=900)
def local_normal(S, node, p, out):
    params = S.geom_params + 4 * node
    kind = S.geom_type[node]
    if kind == 0:
        best = 1e400
        n = [0.0, 0.0, 0.0]
        for axis in range(3):
            low = abs(p[axis] + params[axis] / 2)
            high = abs(p[axis] - params[axis] / 2)
            if low < best:
                best = low
                n = [0.0, 0.0, 0.0]
                n[axis] = -1.0
            if high < best:
                best = high
                n = [0.0, 0.0, 0.0]
                n[axis] = 1.0
        out[0] = n[0]
        out[1] = n[1]
        out[2] = n[2]
    elif kind == 1:
        r = sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2)
        out[0] = p[0] / r
        out[1] = p[1] / r
        out[2] = p[2] / r
    else:
        h = params[0] / 2
        tol = 1e-8 + 1e-5 * abs(h)
        if abs(p[2] + h) <= tol:
            out[0] = 0.0
            out[1] = 0.0
            out[2] = -1.0
        elif abs(p[2] - h) <= tol:
            out[0] = 0.0
            out[1] = 0.0
            out[2] = 1.0
        else:
            r = sqrt(p[0] ** 2 + p[1] ** 2)
            out[0] = p[0] / r
            out[1] = p[1] / r
            out[2] = 0.0


@spec("pvtrace/engine/_kernel.pyx:fresnel_reflectivity", props="P05",
      domain={"angle": [("range", 0.0, 1.57), ("range", 0.0, 1.57), 0.7293, 0.7301], "n1": [("range", 1.0, 3.0), 1.5], "n2": [("range", 1.0, 3.0), 1.0]})
def fresnel(angle, n1, n2):
    if n2 < n1 and angle > asin(n2 / n1):
        return 1.0
    c = cos(angle)
    k = sqrt(1 - (n1 / n2 * sin(angle)) ** 2)
    rs = ((n1 * c - n2 * k) / (n1 * c + n2 * k)) ** 2
    rp = ((n1 * k - n2 * c) / (n1 * k + n2 * c)) ** 2
    return (rs + rp) / 2


@spec("pvtrace/engine/_kernel.pyx:specular_reflect", props="P05", params={"d": "arr3", "normal": "arr3", "out": "out3"})
def reflect(d, normal, out):
    dn = d[0] * normal[0] + d[1] * normal[1] + d[2] * normal[2]
    for i in range(3):
        out[i] = d[i] - 2 * dn * normal[i]


@spec("pvtrace/engine/_kernel.pyx:fresnel_refract", props="P05",
      params={"d": "arr3", "normal": "arr3", "out": "out3"},
      domain={"n1": ("range", 1.0, 3.0), "n2": ("range", 1.0, 3.0)})
def refract(d, normal, n1, n2, out):
    n = n1 / n2
    dn = d[0] * normal[0] + d[1] * normal[1] + d[2] * normal[2]
    c = sqrt(1 - n * n * (1 - dn * dn))
    s = -1.0 if dn < 0 else 1.0
    for i in range(3):
        out[i] = n * d[i] + s * (c - s * n * dn) * normal[i]


@spec("pvtrace/engine/_kernel.pyx:sample_sphere_direction", props="P37", params={"out": "out3"})
def sphere_direction(theta, phi, out):
    out[0] = sin(theta) * cos(phi)
    out[1] = sin(theta) * sin(phi)
    out[2] = cos(theta)


@spec("pvtrace/engine/_kernel.pyx:sample_phase", props="P37 P10", params={"out": "out3"},
      abstract={"rng_uniform": "draw"},
      domain={"phase_type": [0, 1, 2], "phase_param": ("range", -0.95, 0.95)}, trials=120)
def sample_phase(phase_type, phase_param, rng, out):
    u = rng_uniform(rng)
    v = rng_uniform(rng)
    if phase_type == 1 and abs(phase_param) >= EPS:
        g = phase_param
        mu = (1 + g * g - ((1 - g * g) / (1 + g * (2 * u - 1))) ** 2) / (2 * g)
        phi = 2 * M_PI * v
        theta = acos(mu)
    elif phase_type == 2:
        theta = asin(sqrt(u) * sin(phase_param))
        phi = 2 * M_PI * v
    else:
        phi = 2 * M_PI * u
        theta = acos(2 * v - 1)
    out[0] = sin(theta) * cos(phi)
    out[1] = sin(theta) * sin(phi)
    out[2] = cos(theta)


@spec("pvtrace/engine/_kernel.pyx:interp_clamped", props="P04 P06 P13", maxlen=6, rounds=6,
      domain={"n": [1, 2, 3, 4, 5]}, trials=150)
def interp_clamped(x, xs, ys, n):
    if n == 1 or x <= xs[0]:
        return ys[0]
    if x >= xs[n - 1]:
        return ys[n - 1]
    lo = 0
    hi = n - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if xs[mid] <= x:
            lo = mid
        else:
            hi = mid
    if xs[hi] == xs[lo]:
        return ys[lo]
    return ys[lo] + (x - xs[lo]) * (ys[hi] - ys[lo]) / (xs[hi] - xs[lo])


@spec("pvtrace/engine/_kernel.pyx:prop_value", props="P10 P15", params={"lpos": "arr3"}, domain={"prop": [0, 1, 2, 3, 4, 5, 6]})
def prop_value(prop, wavelength, angle, duration, travelled, lpos):
    return [wavelength, angle, duration, travelled, lpos[0], lpos[1], lpos[2]][prop]


@spec("pvtrace/engine/_kernel.pyx:rng_uniform", props="P14", params={"rng": "struct:s0,s1,s2,s3"},
      domain={"sym:rng_s0": [3419876543210987654, 8130987654321098765, 1234567890123456789, 11987654321098765432], "sym:rng_s1": [3419876543210987654, 8130987654321098765, 1234567890123456789, 11987654321098765432], "sym:rng_s2": [3419876543210987654, 8130987654321098765, 1234567890123456789, 11987654321098765432], "sym:rng_s3": [3419876543210987654, 8130987654321098765, 1234567890123456789, 11987654321098765432]})
def rng_next(rng):
    r = rng.s0 + rng.s3
    t = rng.s1 << 17
    c = rng.s2 ^ rng.s0
    d = rng.s3 ^ rng.s1
    rng.s1 = rng.s1 ^ c
    rng.s0 = rng.s0 ^ d
    rng.s2 = c ^ t
    rng.s3 = (d << 45) | (d >> 19)
    return (r >> 11) * (1.0 / 9007199254740992.0)
