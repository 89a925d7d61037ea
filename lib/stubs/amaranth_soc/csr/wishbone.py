"""Not modelled: the checks do not build whole SoCs."""


class WishboneCSRBridge:
    pass
