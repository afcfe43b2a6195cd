"""mqa: static analyser for MarineQC (abstract interpretation of the source)."""
