"""Property-based checks for allantools (see /verif/DESIGN.md)."""
