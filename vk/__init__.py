"""Runtime-monitoring library for fastkml (see DESIGN.md)."""
