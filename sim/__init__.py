"""Deterministic simulation of nbkode (see /verif/DESIGN.md)."""
