"""Bounded exhaustive exploration of QuanGuru (see DESIGN.md)."""
