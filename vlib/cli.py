"""Properties of the program."""
import importlib


def check(prop):
    return importlib.import_module("vlib." + prop.lower()).check()
