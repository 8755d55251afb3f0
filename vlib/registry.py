"""Finds the check for a property: checks/<id>.py, attribute CHECK."""
import importlib


def load(prop):
    return importlib.import_module(f'checks.{prop.lower()}').CHECK
