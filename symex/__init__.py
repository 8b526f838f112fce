"""A small symbolic executor for the real Python source of /repo (see DESIGN.md)."""
