"""Property-based testing framework for PetroFit (see /verif/DESIGN.md)."""
