class Dead(Exception):
    """The current path cannot continue (blocked or panicking outside the claim)."""
