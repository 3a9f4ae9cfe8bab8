"""A Python model of lxml, used in the symbolic process only."""
