"""Exodus databases through the exodus C library (ctypes): the meshes the
checks feed to the program and the output they read back."""
import ctypes as C
import threading

lib = C.CDLL("libexoIIv2c.so.5")
VER = C.c_float(0)
ELEM_BLOCK, NODE_SET, SIDE_SET, ELEM_MAP, NODE_MAP, NODAL, GLOBAL = 1, 2, 3, 4, 5, 14, 13
i64 = C.c_int64
lib.ex_opts(0)
LOCK = threading.RLock()             # the library is not thread safe


class ExoError(Exception):
    pass


def _ck(rc, what):
    if rc < 0:
        raise ExoError(what)


def ints(l):
    return (C.c_int * max(1, len(l)))(*l)


def dbls(l):
    return (C.c_double * max(1, len(l)))(*l)


def write(path, m):
    with LOCK:
        _write(path, m)


def _write(path, m):
    """m: coords [[x,y,z]], node_ids, blocks [{id,name,conn(0-based),type}], elem_ids (flat over blocks),
    nodesets [{id,name,nodes(0-based),ndf}], sidesets [{id,name,elems,sides,ndf}],
    node_map/elem_map: ids of an auxiliary "original_global_id_map" (optional)"""
    a, b = C.c_int(8), C.c_int(8)
    f = lib.ex_create_int(path.encode(), 0x8, C.byref(a), C.byref(b), 602)
    if f < 0:
        raise ExoError("create " + path)
    n = len(m["coords"])
    ne = sum(len(bl["conn"]) for bl in m["blocks"])
    ns = m.get("nodesets", [])
    ss = m.get("sidesets", [])
    _ck(lib.ex_put_init(f, m.get("title", b"t"), i64(m.get("dim", 3)), i64(n), i64(ne), i64(len(m["blocks"])), i64(len(ns)), i64(len(ss))), "init")
    if n:
        _ck(lib.ex_put_coord(f, dbls([c[0] for c in m["coords"]]), dbls([c[1] for c in m["coords"]]),
                             dbls([c[2] for c in m["coords"]])), "coord")
    for bl in m["blocks"]:
        npe = len(bl["conn"][0]) if bl["conn"] else 8
        _ck(lib.ex_put_elem_block(f, i64(bl["id"]), bl.get("type", "HEX8").encode(), i64(len(bl["conn"])),
                                  i64(npe if bl["conn"] else 0), i64(0)), "block")
        if bl["conn"]:
            _ck(lib.ex_put_elem_conn(f, i64(bl["id"]), ints([k + 1 for e in bl["conn"] for k in e])), "conn")
        if bl.get("name"):
            _ck(lib.ex_put_name(f, ELEM_BLOCK, i64(bl["id"]), bl["name"].encode()), "name")
    for s in ns:
        k = len(s["nodes"])
        _ck(lib.ex_put_set_param(f, NODE_SET, i64(s["id"]), i64(k), i64(s.get("ndf", k))), "nsparam")
        if k:
            _ck(lib.ex_put_set(f, NODE_SET, i64(s["id"]), ints([x + 1 for x in s["nodes"]]), None), "ns")
            if s.get("ndf", k):
                _ck(lib.ex_put_set_dist_fact(f, NODE_SET, i64(s["id"]), dbls(s.get("df") or [1.0] * s.get("ndf", k))), "nsdf")
        if s.get("name"):
            _ck(lib.ex_put_name(f, NODE_SET, i64(s["id"]), s["name"].encode()), "name")
    for s in ss:
        k = len(s["elems"])
        _ck(lib.ex_put_set_param(f, SIDE_SET, i64(s["id"]), i64(k), i64(s.get("ndf", 0))), "ssparam")
        if k:
            _ck(lib.ex_put_set(f, SIDE_SET, i64(s["id"]), ints([x + 1 for x in s["elems"]]), ints(s["sides"])), "ss")
            if s.get("ndf", 0):
                _ck(lib.ex_put_set_dist_fact(f, SIDE_SET, i64(s["id"]), dbls(s.get("df") or [1.0] * s["ndf"])), "ssdf")
        if s.get("name"):
            _ck(lib.ex_put_name(f, SIDE_SET, i64(s["id"]), s["name"].encode()), "name")
    if "node_ids" in m and n:
        _ck(lib.ex_put_id_map(f, NODE_MAP, ints(m["node_ids"])), "nodemap")
    if "elem_ids" in m and ne:
        _ck(lib.ex_put_id_map(f, ELEM_MAP, ints(m["elem_ids"])), "elemmap")
    if "node_map" in m or "elem_map" in m:
        _ck(lib.ex_put_map_param(f, 1 if "node_map" in m else 0, 1 if "elem_map" in m else 0), "mapparam")
        if "node_map" in m:
            _ck(lib.ex_put_num_map(f, NODE_MAP, i64(1), ints(m["node_map"])), "nummap")
            _ck(lib.ex_put_name(f, NODE_MAP, i64(1), b"original_global_id_map"), "name")
        if "elem_map" in m:
            _ck(lib.ex_put_num_map(f, ELEM_MAP, i64(1), ints(m["elem_map"])), "nummap")
            _ck(lib.ex_put_name(f, ELEM_MAP, i64(1), b"original_global_id_map"), "name")
    _ck(lib.ex_close(f), "close")


def _names(f, typ, k, getter=None):
    bufs = [C.create_string_buffer(300) for _ in range(k)]
    arr = (C.c_char_p * max(1, k))(*[C.cast(b, C.c_char_p) for b in bufs])
    if k:
        if getter:
            _ck(getter(f, typ, k, arr), "names")
        else:
            _ck(lib.ex_get_names(f, typ, arr), "names")
    return [b.value.decode("latin1") for b in bufs]


def read(path):
    with LOCK:
        return _open_read(path)


def _open_read(path):
    ws, io = C.c_int(8), C.c_int(0)
    ver = C.c_float(0)
    f = lib.ex_open_int(path.encode(), 0x0, C.byref(ws), C.byref(io), C.byref(ver), 602)
    if f < 0:
        raise ExoError("open " + path)
    try:
        return _read(f)
    finally:
        lib.ex_close(f)


def _read(f):
    title = C.create_string_buffer(256)
    v = [C.c_int() for _ in range(6)]
    _ck(lib.ex_get_init(f, title, *[C.byref(x) for x in v]), "init")
    dim, n, ne, nb, nns, nss = [x.value for x in v]
    m = {"num_nodes": n, "num_elem": ne, "dim": dim, "title": title.value.decode("latin1"), "qa": []}
    k = lib.ex_inquire_int(f, 14)                # records of the programs that worked on it
    if k > 0:
        bufs = [C.create_string_buffer(64) for _ in range(4 * k)]
        _ck(lib.ex_get_qa(f, (C.c_char_p * (4 * k))(*[C.cast(b, C.c_char_p) for b in bufs])), "qa")
        m["qa"] = [[b.value.decode("latin1") for b in bufs[4 * i:4 * i + 4]] for i in range(k)]
    x, y, z = dbls([0.0] * n), dbls([0.0] * n), dbls([0.0] * n)
    if n:
        _ck(lib.ex_get_coord(f, x, y, z), "coord")
    m["coords"] = [[x[i], y[i], z[i]] for i in range(n)]
    a = ints([0] * n)
    _ck(lib.ex_get_id_map(f, NODE_MAP, a), "idmap")
    m["node_ids"] = list(a)[:n]
    a = ints([0] * ne)
    _ck(lib.ex_get_id_map(f, ELEM_MAP, a), "idmap")
    m["elem_ids"] = list(a)[:ne]
    bid = ints([0] * nb)
    if nb:
        _ck(lib.ex_get_ids(f, ELEM_BLOCK, bid), "ids")
    bn = _names(f, ELEM_BLOCK, nb)
    m["blocks"] = []
    for k in range(nb):
        et = C.create_string_buffer(64)
        w = [C.c_int() for _ in range(5)]
        _ck(lib.ex_get_block(f, ELEM_BLOCK, i64(bid[k]), et, *[C.byref(q) for q in w]), "block")
        cnt, npe = w[0].value, w[1].value
        conn = ints([0] * (cnt * npe))
        if cnt:
            _ck(lib.ex_get_conn(f, ELEM_BLOCK, i64(bid[k]), conn, None, None), "conn")
        m["blocks"].append({"id": bid[k], "name": bn[k], "type": et.value.decode(),
                            "conn": [[conn[e * npe + j] - 1 for j in range(npe)] for e in range(cnt)]})
    sid = ints([0] * nns)
    if nns:
        _ck(lib.ex_get_ids(f, NODE_SET, sid), "ids")
    sn = _names(f, NODE_SET, nns)
    m["nodesets"] = []
    for k in range(nns):
        a1, a2 = C.c_int(), C.c_int()
        _ck(lib.ex_get_set_param(f, NODE_SET, i64(sid[k]), C.byref(a1), C.byref(a2)), "setparam")
        lst = ints([0] * a1.value)
        if a1.value:
            _ck(lib.ex_get_set(f, NODE_SET, i64(sid[k]), lst, None), "set")
        df = dbls([0.0] * a2.value)
        if a2.value:
            _ck(lib.ex_get_set_dist_fact(f, NODE_SET, i64(sid[k]), df), "setdf")
        m["nodesets"].append({"id": sid[k], "name": sn[k], "nodes": [q - 1 for q in list(lst)[:a1.value]], "ndf": a2.value, "df": list(df)[:a2.value]})
    nt = lib.ex_inquire_int(f, 16)
    m["times"] = []
    if nt:
        t = dbls([0.0] * nt)
        _ck(lib.ex_get_all_times(f, t), "times")
        m["times"] = list(t)
    k = C.c_int()
    _ck(lib.ex_get_variable_param(f, NODAL, C.byref(k)), "varparam")
    m["nodal_names"] = _names(f, NODAL, k.value, lib.ex_get_variable_names)
    k = C.c_int()
    _ck(lib.ex_get_variable_param(f, ELEM_BLOCK, C.byref(k)), "varparam")
    m["elem_names"] = _names(f, ELEM_BLOCK, k.value, lib.ex_get_variable_names)
    k = C.c_int()
    _ck(lib.ex_get_variable_param(f, GLOBAL, C.byref(k)), "varparam")
    m["global_names"] = _names(f, GLOBAL, k.value, lib.ex_get_variable_names)
    m["nodal"], m["elem"], m["global"] = [], [], []
    for s in range(1, nt + 1):
        d = {}
        for q, name in enumerate(m["nodal_names"]):
            buf = dbls([0.0] * n)
            if n:
                _ck(lib.ex_get_var(f, s, NODAL, q + 1, i64(1), i64(n), buf), "var")
            d[name] = list(buf)[:n]
        m["nodal"].append(d)
        if m["global_names"]:
            buf = dbls([0.0] * len(m["global_names"]))
            _ck(lib.ex_get_var(f, s, GLOBAL, 1, i64(1), i64(len(m["global_names"])), buf), "var")
            m["global"].append(dict(zip(m["global_names"], list(buf))))
        d = {}
        for q, name in enumerate(m["elem_names"]):
            for b in m["blocks"]:
                cnt = len(b["conn"])
                if not cnt:
                    continue
                buf = dbls([float("nan")] * cnt)
                rc = lib.ex_get_var(f, s, ELEM_BLOCK, q + 1, i64(b["id"]), i64(cnt), buf)
                if rc == 0:
                    d[(name, b["id"])] = list(buf)[:cnt]
        m["elem"].append(d)
    return m


def grid(nx, ny, nz, h=(1.0, 1.0, 1.0), origin=(0.0, 0.0, 0.0)):
    """coords and hex connectivity of a structured block of elements (x fastest)"""
    co = [[origin[0] + i * h[0], origin[1] + j * h[1], origin[2] + k * h[2]]
          for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]

    def nd(i, j, k):
        return i + (nx + 1) * (j + (ny + 1) * k)
    conn = [[nd(i, j, k), nd(i + 1, j, k), nd(i + 1, j + 1, k), nd(i, j + 1, k),
             nd(i, j, k + 1), nd(i + 1, j, k + 1), nd(i + 1, j + 1, k + 1), nd(i, j + 1, k + 1)]
            for k in range(nz) for j in range(ny) for i in range(nx)]
    return co, conn
