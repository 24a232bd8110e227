"""Deterministic simulation of theboss: see /verif/DESIGN.md."""
