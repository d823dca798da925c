"""Static analyser for runtimepy (source is parsed, never imported or run)."""
