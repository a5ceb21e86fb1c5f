def get(pid):
    import importlib
    for mod in ("c_lattice", "c_readout", "c_params", "c_register", "c_stats", "c_cnot", "c_decode", "c_frame", "c_graph", "c_system"):
        f = getattr(importlib.import_module(mod), pid.lower(), None)
        if f is not None: return f
    return None
