"""Shared machinery of the model-based checks (see DESIGN.md)."""
