"""Runtime-monitoring harness for PyZX (see /verif/DESIGN.md)."""
