"""symx: a symbolic executor for numeric Python (numpy + astropy) code, decided by Z3."""
