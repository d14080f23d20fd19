"""Static analysis of OrangeAssassin (repo-specific checkers, stdlib only)."""
