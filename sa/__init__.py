"""Static analysis library for the skfolio checks."""
