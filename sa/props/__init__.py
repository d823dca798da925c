"""Property checks."""
