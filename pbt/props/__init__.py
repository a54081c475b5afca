"""Property-based checks for miute/svgpy (see /verif/DESIGN.md)."""
