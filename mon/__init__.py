"""Runtime monitors for soepy."""
