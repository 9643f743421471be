"""Deterministic simulation with fault injection for optbinning."""
