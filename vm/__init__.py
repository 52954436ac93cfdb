"""Runtime monitors for continual-inference (see ../DESIGN.md)."""
