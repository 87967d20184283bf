"""Contracts of the functions of /repo."""
