"""Deterministic simulation of TreeCorr: see /verif/DESIGN.md."""
