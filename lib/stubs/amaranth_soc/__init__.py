"""Minimal stand-in for amaranth_soc (not installable offline)."""
