"""Names examples/attosoc.py imports; boards are not modelled."""
