"""Static-analysis framework for mdp-toolkit (see /verif/DESIGN.md)."""
