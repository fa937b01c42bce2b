"""Bounded model checking machinery for pelicun (see DESIGN.md)."""
