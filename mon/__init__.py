"""Runtime monitors for gridded (see /verif/DESIGN.md)."""
