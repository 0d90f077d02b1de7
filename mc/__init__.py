"""Bounded exhaustive exploration framework (see DESIGN.md)."""
