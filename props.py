"""What each check explores."""
ALL = ["vp_1d.a", "vp_2w.a", "vp_2d.a", "vp_2m.a", "vp_3d.a"]
MORE = ["vp_2w.f", "vp_3d.f", "vp_2d.f", "vp_2w.i"]
PROPS = {
    "C01": dict(sos=ALL, sos_thorough=MORE, secs=[25, 900]),
    "C02": dict(sos=ALL, sos_thorough=MORE, secs=[30, 900]),
    "C03": dict(sos=["vp_1d.a", "vp_2w.a", "vp_2m.a"], sos_thorough=["vp_2d.a", "vp_3d.a"], secs=[30, 900]),
    "C04": dict(sos=["vp_1d.a", "vp_2w.a", "vp_3d.a"], sos_thorough=["vp_2d.a", "vp_2m.a"], secs=[20, 600], maxranks=8),
    "C05": dict(sos=["vp_2w.a", "vp_2d.a", "vp_2m.a"], sos_thorough=["vp_1d.a", "vp_3d.a"], secs=[30, 900]),
    "C06": dict(sos=["vp_2w.a", "vp_2d.a", "vp_3d.a"], sos_thorough=["vp_1d.a", "vp_2m.a"] + MORE, secs=[30, 900]),
    "C07": dict(sos=["vp_1d.a", "vp_2w.a", "vp_2m.a"], sos_thorough=["vp_2d.a", "vp_3d.a"], secs=[25, 900]),
    "C08": dict(sos=["vp_2w.a", "vp_2m.a", "vp_3d.a"], sos_thorough=["vp_1d.a", "vp_2d.a", "vp_3d.f"], secs=[25, 600]),
    "C09": dict(sos=["vp_1d.a", "vp_2w.a", "vp_2d.a"], sos_thorough=["vp_2m.a", "vp_3d.a"], secs=[25, 600]),
    "C10": dict(sos=["vp_1d.a", "vp_2w.a", "vp_2d.a", "vp_3d.a"], sos_thorough=["vp_2m.a"], secs=[45, 900]),
    "C11": dict(sos=["vp_1d.a", "vp_2w.a", "vp_3d.a"], sos_thorough=["vp_2m.a", "vp_2d.a"], secs=[15, 300]),
    "C12": dict(sos=["vp_2w.a", "vp_2d.a"], sos_thorough=["vp_1d.a", "vp_2m.a", "vp_3d.a"], secs=[15, 300]),
    "C13": dict(sos=["vp_2w.a", "vp_2m.a", "vp_2d.a"], sos_thorough=["vp_1d.a", "vp_3d.a"], secs=[25, 600]),
    "C14": dict(sos=["vp_2s.a", "vp_2x.a", "vp_4d.a"] + ["vr_%d.a" % k for k in (2, 3, 5, 10, 11, 16, 17, 26, 30, 32, 55, 67, 77)], sos_thorough=MORE, random=64,
                compiler=True, secs=[40, 1200]),
    "C16": dict(sos=["vp_2w.a", "vp_2d.a", "vp_3d.a"], sos_thorough=["vp_1d.a", "vp_2m.a"], secs=[25, 900]),
    "C15": dict(sos=["vp_2w.a", "vp_2m.a", "vp_1d.a"], sos_thorough=["vp_2d.a", "vp_3d.a", "vp_2w.f"], secs=[25, 600]),
    "C17": dict(sos=["vp_2w.a", "vp_2m.a", "vp_1d.a"], sos_thorough=["vp_2d.a", "vp_3d.a", "vp_2w.i"], secs=[25, 600]),
    "C18": dict(sos=["vp_2w.d", "vp_2m.d", "vp_2d.d"], sos_thorough=["vp_1d.d", "vp_3d.d"], secs=[30, 600]),
}
NOTES = {}
