"""Deterministic simulator for resync: one process, one seed, one execution."""
