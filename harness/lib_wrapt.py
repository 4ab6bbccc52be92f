"""What the instrumentor uses of wrapt: the wrappers in place are listed."""

import connectrpc.client
import connectrpc.server

REGISTRY = []


def register_post_import_hook(hook, name):
    # the module is loaded already, so the hook runs at once
    hook(connectrpc.client if name == "connectrpc.client" else connectrpc.server)


def wrap_function_wrapper(module, name, wrapper):
    REGISTRY.append((module, name, wrapper))


def unwrap(obj, attr):
    pass
