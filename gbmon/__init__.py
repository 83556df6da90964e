"""Runtime monitors for graphbrain: see ../DESIGN.md."""
