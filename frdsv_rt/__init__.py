def load_all():
    import importlib, pkgutil
    for m in pkgutil.iter_modules(__path__):
        if m.name.startswith("p_"):
            importlib.import_module("frdsv_rt." + m.name)
