"""Stand-in for matplotlib: the conversion of colours only."""
