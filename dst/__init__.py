"""Deterministic simulation with fault injection for obspy/TauPy."""
