"""Runtime-monitoring machinery for rkopenmdao (see /verif/DESIGN.md)."""
