"""Not modelled."""
