"""One module per property: run(ctx) explores and records failures."""
