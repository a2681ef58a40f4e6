"""Runtime-monitoring framework for elphmod (see DESIGN.md)."""
