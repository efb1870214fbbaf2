"""kstat: a repository-specific static analyser for kMCpy (stdlib only)."""
