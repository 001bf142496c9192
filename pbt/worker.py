"""Lints a list of messages (a repr on standard input) and prints a snapshot of each, one per line."""
import ast
import sys

from pbt import lib


def snapshot(m):
    l = lib.lint(m)
    return (lib.note_keys(l), lib.render(l), lib.results(l))


if __name__ == "__main__":
    for msg in ast.literal_eval(sys.stdin.read()):
        print(ascii(snapshot(msg)))
