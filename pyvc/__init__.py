"""Deductive verifier for the subset of Python the code under verification is written in."""
