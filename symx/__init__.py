"""symx: a path-exploring symbolic executor for the real svgpy source."""
