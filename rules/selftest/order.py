"""Positive examples for the order rule: each function must be reported."""
import os


def listing(path):
    return [x for x in os.listdir(path)]


def emit(outfile, names):
    for name in set(names):
        outfile.write(name)


def keep(names):
    return sorted(set(names))
