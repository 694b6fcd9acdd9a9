"""Runtime-verification machinery for binobj. See /verif/DESIGN.md."""
