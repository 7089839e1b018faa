"""Property-based verification of bayeso (see /verif/DESIGN.md)."""
