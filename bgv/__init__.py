"""Property based checks for bathygrid."""
