"""Bounded exhaustive model checking of WAX-ML (see DESIGN.md)."""
