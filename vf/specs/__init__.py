import importlib
MODULES = ['vector', 'small', 'vector_map', 'lists', 'string', 'deque', 'hash_table', 'rb_tree', 'fixed_pool', 'fixed_vector', 'fixed_list', 'fixed_map']


def load(sp):
    for m in MODULES:
        mod = importlib.import_module('vf.specs.' + m)
        for c in mod.CONTRACTS:
            sp.add(c())
        for k, f in getattr(mod, 'MODELS', {}).items():
            sp.extra_models[k] = f
