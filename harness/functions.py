"""Showing with actual arguments that a function does not do what its contract says."""


def difference(name, model, seed):
    """Description of a difference between the function and its specification, or None"""
    return None
