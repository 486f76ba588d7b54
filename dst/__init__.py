"""Deterministic simulation of pystruct: see /verif/DESIGN.md."""
