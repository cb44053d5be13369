"""Static analyser for GalacticDynamics/coordinax (source-only, stdlib-only)."""
