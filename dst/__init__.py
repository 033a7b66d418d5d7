"""Deterministic simulation of skfolio with fault injection."""
