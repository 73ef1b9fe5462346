"""add.py ID 'units' rule [repo] [libs] [flags] - appends a harness entry (development helper)."""
import sys, pathlib
p = pathlib.Path(__file__).with_name("harnesses.py")
t = p.read_text().rstrip()
assert t.endswith("}")
p.write_text(t[:-1] + sys.stdin.read().rstrip() + "\n}\n")
